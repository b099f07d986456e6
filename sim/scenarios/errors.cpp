// C11: whatever a caller passes in and whatever fails below, the engine answers with a result or an error
// through the callback, and other data, styles and later requests are not affected.
#include "world.hpp"
#include <cerrno>
using namespace sim;
using world::Imp; using world::Request;
namespace {
enum { BadStyle, UnknownStore, FlippedFile, BadElement, OddTile, FaultyRequest, OddText, FaultyStyle, OddShape, BadElevation, OddStyle, Kinds };
const char *kindName[] = {"badStyle", "unknownStore", "flippedFile", "badElement", "oddTile", "faultyRequest", "oddText", "faultyStyle", "oddShape", "badElevation", "oddStyle"};

void gen(Rng &r, Plan &p) {
  p.par["pers"] = r.chance(0.5); p.par["dataset"] = r.below(6); p.par["cache"] = r.chance(0.2);
  int only = (int)p.p("only", -1);
  for (int i = (int)r.range(1, 2); i > 0; --i) p.op(0, "import", {r.below(world::Formats), r.below(2), r.below(3), 0});
  for (int i = (int)r.range(2, 6); i > 0; --i) { int k = only >= 0 ? only : (int)r.below(Kinds); p.op(0, kindName[k], {r.below(1 << 20), r.below(1 << 20), r.below(3), r.chance(0.35) ? r.range(1, 150) : r.chance(0.6) ? r.range(1, 1500) : r.range(1, 15000)}); }
}

struct Run {
  Plan &p; bool pers; std::map<int, std::vector<Imp>> done; std::set<int> dirty; int n = 0;
  explicit Run(Plan &p) : p(p), pers(p.p("pers")) {}
  void healthy(int t, const char *after, int style = 0) {
    Request *r; { Quiet q; r = new Request; } world::query(*r, style, world::tile(t)); Quiet q; trace("tile %d after %s: %zu results %s", t, after, r->items.size(), r->errors.empty() ? "" : r->errors[0].c_str());
    if (!r->errors.empty()) fail("request-fails", "a healthy request fails after " + std::string(after) + ": " + r->errors[0]);
    if (dirty.count(t)) return;
    auto d = world::difference(world::reference(pers, done[t], style, world::tile(t)), r->sorted());
    if (!d.empty()) fail("affected", "a healthy request is affected by " + std::string(after) + ": " + d);
    cover(world::hash(r->sorted()));
  }
  // A request or import with a style which is not one of the two standard ones.
  std::string importWith(const std::string &style, const Imp &i, const char *key = "store") { return world::importStyle(style, i, key); }

  void badStyle(const Op &o) {
    std::string dir = "/sim/app/s" + std::to_string(n) + "/", path = dir + "x.mapcss"; int v = (int)(o.arg(0) % 7), t = (int)o.arg(2); bool mustFail = true; const char *what = "";
    { Quiet q; fs::mkdirs(dir); std::string s = fs::read(world::styleFile(0)); for (const char *f : {"tree.lsys", "lamp.lsys", "atlas.txt"}) fs::write(dir + f, fs::read(std::string("/sim/app/") + f));
      switch (v) {
        case 0: what = "a missing stylesheet"; break;
        case 1: what = "a missing import"; fs::write(path, "@import url(\"other.mapcss\");\n" + s); break;
        case 2: what = "a missing lsystem"; fs::write(path, s); fs::remove(dir + "tree.lsys"); break;
        case 3: what = "a missing texture atlas"; fs::write(path, s); fs::remove(dir + "atlas.txt"); break;
        case 4: what = "a cut stylesheet"; s.resize(s.size() * (o.arg(1) % 1000) / 1000); fs::write(path, s); mustFail = false; break;
        case 5: what = "a damaged stylesheet"; for (int k = 0; k < 1 + o.arg(1) % 4; ++k) s[(o.arg(1) * 7919 + k * 104729) % s.size()] ^= 1 << (o.arg(1) + k) % 7; fs::write(path, s); mustFail = false; break;
        default: { what = "a damaged lsystem or atlas"; fs::write(path, s); std::string f = dir + (o.arg(1) % 3 == 0 ? "tree.lsys" : o.arg(1) % 3 == 1 ? "lamp.lsys" : "atlas.txt"), l = fs::read(f); if (o.arg(1) % 2) l.resize(l.size() * (o.arg(1) % 100) / 100); else for (int k = 0; k < 3; ++k) l[(o.arg(1) * 31 + k * 17) % l.size()] ^= 1 << (o.arg(1) + k) % 7; fs::write(f, l); mustFail = false; } }
      count(("bad.style" + std::to_string(v)).c_str()); }
    world::registerStyle(path);
    Request *r; { Quiet q; r = new Request; } world::queryStyle(*r, path, world::tile(t)); { Quiet q; trace("request with %s: %zu results %s", what, r->items.size(), r->errors.empty() ? "" : r->errors[0].c_str());
      if (mustFail && r->errors.empty()) fail("silent-error", std::string("a request with ") + what + " reports no error"); if (mustFail && !r->items.empty()) fail("silent-error", std::string("a request with ") + what + " delivers results"); }
    if (mustFail) { std::string e = importWith(path, Imp{0, 0, world::tile(5)}); if (e.empty()) fail("silent-error", std::string("an import with ") + what + " reports no error"); }
    healthy(t, what);
    if (!mustFail) return;
    // repaired: works now
    { Quiet q; for (const char *f : {"tree.lsys", "lamp.lsys", "atlas.txt"}) fs::write(dir + f, fs::read(std::string("/sim/app/") + f)); fs::write(path, fs::read(world::styleFile(0))); r = new Request; }
    world::registerStyle(path); world::queryStyle(*r, path, world::tile(t)); Quiet q;
    if (!r->errors.empty()) fail("sticky-error", std::string(what) + " keeps failing after it was repaired: " + r->errors[0]);
    if (!dirty.count(t)) { auto d = world::difference(world::reference(pers, done[t], 0, world::tile(t)), r->sorted()); if (!d.empty()) fail("affected", std::string("the repaired style after ") + what + " builds something else: " + d); }
  }
  void faultyStyle(const Op &o) { // the stylesheet cannot be read to its end, or there is no memory for it
    std::string dir = "/sim/app/s" + std::to_string(n) + "/", path = dir + "x.mapcss"; int t = (int)o.arg(2);
    { Quiet q; fs::mkdirs(dir); fs::write(path, fs::read(world::styleFile(0))); for (const char *f : {"tree.lsys", "lamp.lsys", "atlas.txt"}) fs::write(dir + f, fs::read(std::string("/sim/app/") + f)); 
      Plan &pl = *g_plan; const char *where[] = {"/x.mapcss", "/tree.lsys", "/lamp.lsys", "/atlas.txt"}; static std::vector<std::string> *names = new std::vector<std::string>; names->push_back((o.arg(1) % 3 ? "read_err:/s" : "open_err:/s") + std::to_string(n) + where[o.arg(0) % 4]); 
      bool had = false; for (auto &f : pl.faults) had = had || f.kind == names->back(); if (!had) pl.faults.push_back({names->back(), o.arg(0) % 8 < 4 ? 1 : 2, 1, o.arg(1) % 2 ? EIO : EMFILE}); }
    bool oom = o.arg(1) % 5 == 0; long long f0 = faults(), m0 = alloc::fired();
    if (oom) alloc::failAt(o.arg(3)); else fs::g_faultsOn = true;
    world::registerStyle(path); Request *r; { Quiet q; r = new Request; } world::queryStyle(*r, path, world::tile(t)); alloc::failAt(0); fs::g_faultsOn = false;
    bool hit = faults() != f0 || alloc::fired() != m0; { Quiet q; trace("style with a failure (%s): %zu results %s", hit ? "hit" : "missed", r->items.size(), r->errors.empty() ? "" : r->errors[0].c_str());
      if (hit) count("bad.faultyStyle"); if (!hit && !r->errors.empty()) fail("request-fails", "a request fails: " + r->errors[0]);
      if (!dirty.count(t)) { auto d = world::difference(world::reference(pers, done[t], 0, world::tile(t)), r->sorted(), !r->errors.empty()); if (!d.empty()) fail("silent-error", "a style which could not be read completely is used: " + d); } 
      r = new Request; }
    world::registerStyle(path); world::queryStyle(*r, path, world::tile(t)); Quiet q;
    if (!r->errors.empty()) fail("sticky-error", "a style keeps failing after its files became readable: " + r->errors[0]);
    if (!dirty.count(t)) { auto d = world::difference(world::reference(pers, done[t], 0, world::tile(t)), r->sorted()); if (!d.empty()) fail("sticky-error", "a style which could not be read completely is kept: " + d); }
  }
  void oddStyle(const Op &o) { // a stylesheet which is well formed, but misses something or has a value which means nothing
    std::string dir = "/sim/app/s" + std::to_string(n) + "/", path = dir + "x.mapcss", what; int t = (int)o.arg(2);
    { Quiet q; fs::mkdirs(dir); std::string s = fs::read(world::styleFile(0)); for (const char *f : {"tree.lsys", "lamp.lsys", "atlas.txt"}) fs::write(dir + f, fs::read(std::string("/sim/app/") + f));
      std::vector<std::pair<size_t, size_t>> decls; int depth = 0; size_t from = 0; bool str = false; for (size_t k = 0; k < s.size(); ++k) { if (s[k] == '"') str = !str; if (str) continue; if (s[k] == '{') depth = 1, from = k + 1; else if (s[k] == '}') depth = 0; else if (s[k] == ';' && depth) { decls.push_back({from, k + 1}); from = k + 1; } }
      auto d = decls[o.arg(0) % decls.size()]; std::string text = s.substr(d.first, d.second - d.first), key = text.substr(0, text.find(':')); const char *values[] = {"oops", "eval(\"tag('nothing')\")", "eval(\"'x'\")", "nothing,nowhere", "gradient(nothing)", "-", "1.5.5", "%", "0", "-3", "0%", "0m"};
      int v = (int)(o.arg(1) % 13); text = v == 0 ? "" : key + ": " + values[v - 1] + ";"; what = key + (v ? std::string("=") + values[v - 1] : " missing"); what.erase(0, what.find_first_not_of(" \n")); s.replace(d.first, d.second - d.first, text); fs::write(path, s); count("bad.oddStyle"); }
    world::registerStyle(path); std::vector<std::string> first, firstErr;
    for (int k = 0; k < 3; ++k) { Request *r; { Quiet q; r = new Request; } world::queryStyle(*r, path, world::tile(t)); Quiet q; trace("style with %s: %zu results %s", what.c_str(), r->items.size(), r->errors.empty() ? "" : r->errors[0].c_str());
      auto got = r->sorted(); auto err = r->errors; if (!err.empty()) count("op.oddStyleRefused");
      if (k == 0) { first = got; firstErr = err; continue; }
      if (err != firstErr) fail("unsteady-error", "the same request with a style with " + what + (firstErr.empty() ? " works, then fails: " + err[0] : err.empty() ? " fails, then does not: " + firstErr[0] : " fails with another error: " + firstErr[0] + " / " + err[0]));
      auto d = world::difference(first, got); if (!d.empty()) fail("unsteady-error", "the same request with a style with " + what + " is answered differently: " + d); }
    healthy(t, "a style which does not fit");
  }
  static long long faults() { long long k = 0; for (auto &c : counters()) if (c.first.compare(0, 6, "fault.") == 0) k += c.second; return k; }
  void faultyRequest(const Op &o) {
    int t = (int)o.arg(2), style = (int)(o.arg(0) % 2), ele = o.arg(0) % 4 < 2 || eleUsed.count(t) ? 0 : 2; if (ele) { Quiet q; eleUsed.insert(t); } bool oom = o.arg(1) % 3 != 0; long long f0 = faults(), m0 = alloc::fired();
    { Quiet q; if (!oom) { std::string k = (o.arg(1) % 2 ? "read_err:" : "open_err:") + std::string(o.arg(0) % 3 ? "/data" : "/string"); bool had = false; for (auto &f : g_plan->faults) had = had || (f.kind == k && f.at == 1 + o.arg(1) % 40); if (!had) g_plan->faults.push_back({k, 1 + o.arg(1) % 40, 1, EIO}); } }
    Request *r; { Quiet q; r = new Request; } if (oom) alloc::failAt(o.arg(3)); else fs::g_faultsOn = true;
    world::query(*r, style, world::tile(t), ele); alloc::failAt(0); fs::g_faultsOn = false; bool hit = faults() != f0 || alloc::fired() != m0;
    { Quiet q; trace("request with a failure (%s): %zu results %s", hit ? "hit" : "missed", r->items.size(), r->errors.empty() ? "" : r->errors[0].c_str()); if (hit) count(oom ? "bad.memory" : "bad.io");
      if (!hit && !r->errors.empty()) fail("request-fails", "a request fails: " + r->errors[0]);
      if (!dirty.count(t)) { auto d = world::difference(world::reference(pers, done[t], style, world::tile(t), ele), r->sorted(), !r->errors.empty()); if (!d.empty()) fail("silent-error", std::string("a request ") + (r->errors.empty() ? "which met a failure reports none" : "which fails delivers something else") + ": " + d); } }
    healthy(t, "a request with a failure");
  }
  void badElement(const Op &o) {
    int v = (int)(o.arg(0) % 8), t = (int)o.arg(2); auto b = utymap::utils::GeoUtils::quadKeyToBoundingBox(world::tile(t)); auto c = b.center(); Imp i; i.element = 900000 + n; i.lod0 = i.lod1 = 16; i.format = -1; i.where = world::tile(t); i.pts = {{c.latitude, c.longitude}}; i.tags = {{"amenity", "kiosk"}}; bool mustFail = false; const char *key = "store";
    { Quiet q; switch (v) { case 0: i.pts.clear(); mustFail = true; break; case 1: i.tags.clear(); break; case 2: key = "nowhere"; mustFail = true; break; case 3: i.lod0 = 16; i.lod1 = 15; break;
        case 4: i.pts = {{b.minPoint.latitude, b.minPoint.longitude}, {b.minPoint.latitude, b.minPoint.longitude}}; i.tags = {{"building", "yes"}}; break; case 5: i.pts = {{c.latitude, c.longitude}, {c.latitude, c.longitude}, {c.latitude, c.longitude}, {c.latitude, c.longitude}}; i.tags = {{"landuse", "grass"}}; break;
        case 6: i.lod0 = 20; i.lod1 = 21; break; default: i.tags = {{"amenity", ""}, {"", "x"}, {"name", std::string(300, 'a')}}; } count(("bad.element" + std::to_string(v)).c_str()); }
    std::string e = world::importElement(0, i.element, i.pts, i.tags, i.lod0, i.lod1, key); trace("bad element %d: %s", v, e.c_str());
    if (mustFail && e.empty()) fail("silent-error", "an element which cannot be stored is accepted"); 
    if (e.empty() && v != 3 && v != 6 && v != 1) { Quiet q; for (int k = 0; k < world::Tiles; ++k) dirty.insert(k); }
    healthy(t, "a bad element");
  }
  void oddShape(const Op &o) { // geometry found in real extracts: repeated points, needles, self-crossings
    int t = (int)o.arg(2); auto b = utymap::utils::GeoUtils::quadKeyToBoundingBox(world::tile(t)); Imp i; std::string what;
    { Quiet q; Rng r(o.arg(0)); i.element = 800000 + n; i.lod0 = i.lod1 = 16; i.format = -1; i.where = world::tile(t); int m = (int)r.range(2, 9); std::vector<std::pair<double, double>> pts; int g = r.chance(0.5) ? 3 : 100;
      for (int k = 0; k < m; ++k) { auto P = std::make_pair(b.minPoint.latitude + b.height() * (r.chance(0.1) ? -0.3 : r.below(g) / (double)g), b.minPoint.longitude + b.width() * (r.chance(0.1) ? 1.4 : r.below(g) / (double)g)); pts.push_back(r.chance(0.15) && k ? pts[r.below(k)] : P); }
      if (r.chance(0.7)) pts.push_back(pts[0]);
      const std::vector<std::vector<std::pair<std::string, std::string>>> tags = {{{"building", "yes"}}, {{"building", "yes"}, {"roof", "dome"}}, {{"building", "yes"}, {"roof", "pyramidal"}}, {{"landuse", "grass"}}, {{"landuse", "commercial"}}, {{"highway", "primary"}}, {{"barrier", "wall"}}, {{"natural", "tree_row"}}};
      i.tags = r.pick(tags); i.pts = pts; what = i.tags.back().first + "=" + i.tags.back().second; count(("bad.shape." + what).c_str()); for (auto &q : pts) what += " " + std::to_string((q.first - b.minPoint.latitude) / b.height()) + "/" + std::to_string((q.second - b.minPoint.longitude) / b.width()); }
    std::string e = world::importElement(0, i.element, i.pts, i.tags, 16, 16); trace("shape %s: %s", what.c_str(), e.c_str());
    Request *r; { Quiet q; r = new Request; } world::query(*r, 0, world::tile(t)); { Quiet q; trace("request: %zu results %s", r->items.size(), r->errors.empty() ? "" : r->errors[0].c_str()); if (!r->errors.empty()) count("op.shapeRefused"); for (int k = 0; k < world::Tiles; ++k) dirty.insert(k), sick.insert(k); }
  }
  std::set<int> sick;
  void one(const Op &o) {
    ++n; int t = (int)o.arg(2);
    if (o.kind == "import") { Imp i{(int)o.arg(0), (int)o.arg(1), world::tile(t), 0}; std::string e = world::run(i); if (!e.empty()) fail("refused", "a healthy import fails: " + e); Quiet q; done[t].push_back(i); return; }
    if (o.kind == "badStyle") return badStyle(o);
    if (o.kind == "faultyStyle") return faultyStyle(o);
    if (o.kind == "faultyRequest") return faultyRequest(o);
    if (o.kind == "oddStyle") return oddStyle(o);
    if (o.kind == "badElement") return badElement(o);
    if (o.kind == "oddShape") return oddShape(o);
    if (o.kind == "unknownStore") {
      std::string path; { Quiet q; path = world::inputFile((int)(o.arg(0) % world::Formats), 0); } QuadKeyT k = world::tile(t); std::string e;
      switch (o.arg(1) % 5) { case 0: e = world::import(0, path, k, nullptr, "nowhere"); break; case 1: e = world::importRange(0, path, 15, 16, nullptr, "nowhere"); break; case 2: e = world::importBox(0, path, utymap::utils::GeoUtils::quadKeyToBoundingBox(k), 15, 16, nullptr, "nowhere"); break; case 3: e = world::import(0, "/sim/in/nothing.osm.xml", k); break; default: e = world::import(0, "/sim/in/0.unknown", k); }
      count("bad.import"); trace("import: %s", e.c_str()); if (e.empty()) fail("silent-error", "an import into an unknown store or of an unknown file reports no error"); return healthy(t, "an import which is refused");
    }
    if (o.kind == "flippedFile") {
      int f = (int)(o.arg(0) % 6); std::string to = "/sim/in/f" + std::to_string(n) + (f == 0 ? ".osm.xml" : f == 1 ? ".osm.json" : f == 2 ? ".osm.pbf" : ""); Imp i; bool cutTile = false;
      { Quiet q; std::vector<std::string> ext = f < 3 ? std::vector<std::string>{""} : std::vector<std::string>{".shp", ".shx", ".dbf"}; Rng r(o.arg(1)); int victim = (int)r.below(ext.size());
        for (int k = 0; k < (int)ext.size(); ++k) { std::string s = fs::read(world::inputFile(f, 1) + ext[k]); if (k == victim) for (int m = (int)r.range(1, 4); m > 0; --m) { size_t at = r.below(s.size()); if (f < 2 && (isdigit(s[at]) || s[at] == '.')) continue; if (f >= 3) { bool head = r.chance(0.5); int w = (int)r.below(4); // no coordinates: an element of half a world takes minutes
              if (ext[k] == ".shp") at = head ? r.below(100) : f > 3 && w ? 148 + w : 100 + r.below(12); else if (ext[k] == ".shx") at = head ? r.below(100) : 104 + w + 8 * r.below((s.size() - 100) / 8); else if (head) at = r.below(std::min<size_t>(100, s.size())); } s[at] ^= 1 << r.below(8); } fs::write(to + ext[k], s); }
        i = Imp{f, 1, world::tile(5)}; i.path = to; count("bad.flippedFile"); (void)cutTile; }
      std::string e = world::run(i); trace("flipped file %d: %s", f, e.c_str()); count(e.empty() ? "op.flippedAccepted" : "op.flippedRefused"); { Quiet q; dirty.insert(5); }
      return healthy(t, "a damaged file");
    }
    if (o.kind == "oddTile") {
      const int q[][3] = {{0, 0, 0}, {1, 0, 0}, {16, -1, 5}, {16, 65536, 7}, {17, 70000, 40000}, {25, 1, 1}, {15, 40000, 1}, {3, 7, 7}, {16, 35204, -3}}; auto &x = q[o.arg(0) % 9]; int e = (int)(o.arg(1) % 4);
      Request *r; { Quiet q; r = new Request; } world::query(*r, 0, utymap::QuadKey(x[0], x[1], x[2]), e == 3 ? 77 : e); count("bad.tile"); trace("odd tile %d: %zu results %s", x[0], r->items.size(), r->errors.empty() ? "" : r->errors[0].c_str());
      bool has = hasData(x[1], x[2], x[0]); if (has) fail("silent-error", "a tile which does not exist has data"); double h = getElevationByQuadKey(x[1], x[2], x[0], e == 3 ? 77 : e, 52.5, 13.4); (void)h;
      return healthy(t, "a request for an odd tile");
    }
    if (o.kind == "oddText") {
      const char *w[][3] = {{"", "", ""}, {"a", "", ""}, {"  ", " ,. ", ";;"}, {"", "\xff\xfe", "\x01"}, {"", "name name name", "name"}, {"yes", "yes", "yes"}, {"", "zzzzqqq", ""}}; auto &x = w[o.arg(0) % 7];
      Request *r; { Quiet q; r = new Request; } const double bb[][4] = {{52.5, 13.35, 52.55, 13.45}, {53, 14, 52, 13}, {52.5, 13.4, 52.5, 13.4}}; auto &bx = bb[o.arg(1) % 3];
      world::text(*r, x[0], x[1], x[2], utymap::BoundingBox(utymap::GeoCoordinate(bx[0], bx[1]), utymap::GeoCoordinate(bx[2], bx[3])), o.arg(1) % 2 ? 16 : 15, 16); count("bad.text"); trace("text: %zu results %s", r->items.size(), r->errors.empty() ? "" : r->errors[0].c_str());
      return healthy(t, "an odd search");
    }
    if (o.kind == "badElevation") { // damaged or missing elevation: an error, or what is readable
      auto k = world::tile(t); std::string f, keep; { Quiet q; f = "/sim/app/data/" + std::to_string(k.levelOfDetail) + "/" + utymap::utils::GeoUtils::quadKeyToString(k) + ".ele"; keep = fs::read(f); std::string s = keep;
        switch (o.arg(0) % 4) { case 0: fs::remove(f); break; case 1: s.resize(s.size() * (o.arg(1) % 100) / 100); fs::write(f, s); break; case 2: s[o.arg(1) % s.size()] = 'x'; fs::write(f, s); break; default: fs::write(f, ""); } count("bad.elevation"); }
      if (eleUsed.count(t)) { Quiet q; fs::write(f, keep); return; } { Quiet q; eleUsed.insert(t); }
      Request *r; { Quiet q; r = new Request; } world::query(*r, 0, k, 2); trace("bad elevation: %zu results %s", r->items.size(), r->errors.empty() ? "" : r->errors[0].c_str()); bool refused; { Quiet q; fs::write(f, keep); refused = !r->errors.empty(); count(refused ? "op.elevationRefused" : "op.elevationAccepted"); bool mesh = false; for (auto &i : r->items) mesh = mesh || i.mesh; if (mesh && o.arg(0) % 4 % 3 == 0) fail("silent-error", "a tile with a missing or empty elevation file is built without an error"); }
      if (refused) { { Quiet q; r = new Request; } world::query(*r, 0, k, 2); Quiet q; if (!r->errors.empty()) fail("sticky-error", "elevation keeps failing after the file was repaired: " + r->errors[0]); if (!dirty.count(t)) { auto d = world::difference(world::reference(pers, done[t], 0, k, 2), r->sorted()); if (!d.empty()) fail("sticky-error", "elevation is different after the file was repaired: " + d); } }
      return healthy(t, "a damaged elevation file");
    }
  }
  typedef utymap::QuadKey QuadKeyT; std::set<int> eleUsed;
  void all() {
    fs::g_faultsOn = false; world::start(p.p("cache")); world::store(pers);
    for (auto &o : p.ops) { if (sick.count((int)o.arg(2)) && o.kind != "oddShape") continue; one(o); }
    for (int t = 0; t < 4; ++t) if (!sick.count(t)) healthy(t, "everything");
    disconnect(); if (fs::openHandles()) fail("handle-leak", "files stay open after the engine was shut down");
  }
};
void exec(Plan &p) { world::install((int)p.p("dataset")); Run r{p}; runTasks({[&] { r.all(); }}); }
Registrar a("errors", gen, exec);
}
