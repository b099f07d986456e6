// C07: an import which does not run to its end leaves no trace. C15: and keeps nothing.
#include "world.hpp"
#include <cerrno>
using namespace sim;
using world::Imp;
namespace {
enum { None, Cancel, Cut, ReadError, Missing, OutOfMemory, CancelledBefore, LostNodes, FaultKinds, Damaged = FaultKinds };
std::string copyPath(int op, int f) { return "/sim/in/x" + std::to_string(op) + (f == 0 ? ".osm.xml" : f == 1 ? ".osm.json" : f == 2 ? ".osm.pbf" : ""); }

void gen(Rng &r, Plan &p) {
  p.par["pers"] = r.chance(0.5); p.par["dataset"] = r.below(6);
  int n = (int)r.range(2, 6), tiles = (int)r.range(1, 3);
  for (int i = 0; i < n; ++i) {
    int fault = r.chance(0.3) ? None : (int)r.range(1, FaultKinds - 1), f = (int)r.below(world::Formats); long long at = 0;
    if (p.p("handles") && r.chance(0.3)) { fault = Damaged; at = r.below(1 << 20); if (r.chance(0.7)) f = (int)r.range(3, world::Formats - 1); }
    if (fault == LostNodes && f >= 3) f = (int)r.below(3);
    switch (fault) { case Cancel: at = r.chance(0.5) ? r.range(1, 60) : r.range(1, 500); break; case Cut: at = r.range(0, 1000); break; case OutOfMemory: at = r.chance(0.3) ? r.range(1, 300) : r.range(1, 12000); break; case LostNodes: at = r.below(1000); break; }
    if (fault == ReadError) p.faults.push_back({"read_err:/x" + std::to_string(i), r.range(1, r.chance(0.5) ? 3 : 40), r.range(1, 3), EIO});
    if (r.chance(0.12)) p.op(0, "range", {f, r.below(2), 15, 16, r.below(2), fault, at});
    else p.op(0, "import", {f, r.below(2), r.below(tiles) * 2 % 5, r.below(2), fault, at});
  }
  if (r.chance(0.25)) p.faults.push_back({r.chance(0.5) ? "write_err:/data/1" : "open_err:/data/1", r.range(1, 120), r.range(1, 3), r.chance(0.5) ? ENOSPC : EIO});
}

struct Run {
  Plan &p; bool pers, handles; std::map<int, std::vector<Imp>> done; std::set<int> dirty; bool storeFaults = false;
  std::vector<std::string> look(int t) { world::Request r; bool on = fs::g_faultsOn; fs::g_faultsOn = false; world::query(r, 0, world::tile(t)); fs::g_faultsOn = on; if (!r.errors.empty()) fail("request-fails", "a request for tile " + std::to_string(t) + " fails after the import: " + r.errors[0]); return r.sorted(); }
  std::vector<std::string> ref(const std::vector<Imp> &l, int t) { return world::reference(pers, l, 0, world::tile(t)); }
  void same(int t) {
    if (dirty.count(t)) { look(t); return; }
    auto got = look(t); Quiet q; auto d = world::difference(ref(done[t], t), got);
    if (!d.empty()) fail("other-tile", "tile " + std::to_string(t) + " differs from what was imported into it: " + d);
    cover(world::hash(got));
  }
  void importOne(int no, const Op &o, bool range) {
    int f = (int)o.arg(0), data = (int)o.arg(1), fault = (int)o.arg(range ? 5 : 4); long long at = o.arg(range ? 6 : 5); int t = range ? -1 : (int)o.arg(2);
    Imp imp{f, data, world::tile(range ? 0 : t), (int)o.arg(range ? 4 : 3)}; if (range) { imp.lod0 = 15; imp.lod1 = 16; }
    CancellationToken_ tok; bool mustFail = fault == Missing, prefix = false;
    { Quiet q; std::string from = world::inputFile(f, data), to = copyPath(no, f); imp.path = to;
      std::vector<std::string> ext = f < 3 ? std::vector<std::string>{""} : std::vector<std::string>{".shp", ".shx", ".dbf"};
      for (size_t i = 0; i < ext.size(); ++i) { if (fault == Missing && (ext.size() == 1 || at % 3 == (int)i)) continue; std::string s = fs::read(from + ext[i]);
        if (fault == Cut && (ext.size() == 1 || (int)(p.seed % 3) == (int)i)) {
          size_t n = s.size() * at / 1000; std::string lost = s.substr(n); mustFail = lost.find_first_not_of(" \r\n") != std::string::npos; if (!lost.empty()) prefix = prefix || f > 2; s.resize(n); count("fault.cutFile");
          if (f == 2) { size_t sum = 0; bool edge = n == 0; for (auto &b : world::osmPbf((int)p.p("dataset") + data)) { sum += b.size(); if (sum == n) edge = true; } if (edge) { mustFail = false; prefix = true; } } }
        if (fault == LostNodes && f == 0) { size_t a = s.find("<nd ", s.size() * at / 1400); if (a != std::string::npos) { size_t b = s.find("ref=\"", a) + 5; s.replace(b, s.find('"', b) - b, "99"); count("fault.lostNode"); } }
        if (fault == Damaged && (ext.size() == 1 || at % 3 == (int)i)) { Rng r(at); count("fault.damagedFile"); for (int m = (int)r.range(1, 2); m > 0; --m) { if (f < 3 || s.size() < 40) { size_t k = r.below(s.size()); if (!isdigit(s[k]) && s[k] != '.') s[k] ^= 1 << r.below(8); continue; } // no coordinates: an element of half a world takes minutes
            auto put = [&](size_t o, int n, uint64_t v, bool big) { for (int k = 0; k < n; ++k) s[o + k] = (char)(v >> 8 * (big ? n - 1 - k : k)); };
            if (i < 2) switch (r.below(5)) { case 0: case 1: { const uint64_t v[] = {0, 10, 50, 54, 58, s.size() / 2 - 4, s.size() / 2 + 4, s.size() / 2 + 400, 0x40000000, 0x3fffffff, 0x7fffffff, 0x80000000, 0xffffffff}; put(24, 4, v[r.below(13)], true); break; } case 2: put(0, 4, r.below(2) ? 9993 : 170328064, true); break; case 3: put(28, 4, r.below(2000), false); break; default: { const uint64_t v[] = {0, 1, 3, 5, 8, 11, 13, 15, 31, 77}; put(32, 4, v[r.below(10)], false); } }
            else switch (r.below(4)) { case 0: { const uint64_t v[] = {0, 1, 2, 1000, 0xffffffff, 0x80000000}; put(4, 4, v[r.below(6)], false); break; } case 1: put(8, 2, r.below(4) ? r.below(400) : r.below(65536), false); break; case 2: put(10, 2, r.below(4) ? r.below(400) : r.below(65536), false); break; default: s[32 + r.below(s.size() - 32)] ^= 1 << r.below(8); } } }
        fs::write(to + ext[i], s); } }
    if (fault == CancelledBefore) tok.t.cancel();
    long long step = 0; bool inside = true; int me = currentTask();
    if (fault == Cancel) g_onStep = [&, at, me](const char *) { if (inside && ++step == at && currentTask() == me) { tok.t.cancel(); count("fault.cancelInside"); } };
    long long fired0 = alloc::fired(); if (fault == OutOfMemory) alloc::failAt(at);
    std::string e = world::run(imp, &tok.t); inside = false; g_onStep = nullptr; alloc::failAt(0);
    prefix = prefix || fault == Damaged; bool cancelled = tok.t.isCancelled(), failed = !e.empty(), oom = alloc::fired() > fired0;
    trace("import %s -> %s%s", imp.path.c_str(), failed ? e.c_str() : "done", cancelled ? " (cancelled)" : ""); count(failed ? "op.importFailed" : cancelled ? "op.importCancelled" : "op.import");
    if (handles) { if (fs::openHandles("/in/")) fail("handle-leak", "the input files stay open after an import which " + std::string(failed ? "failed" : "ended")); return; }
    bool readErr = false; for (auto &x : p.faults) if (x.kind == "read_err:/x" + std::to_string(no)) readErr = true;
    if (failed && !(mustFail || prefix || readErr || oom || cancelled || storeFaults)) fail("refused", "a healthy import fails: " + e);
    if (!failed && mustFail && !cancelled) fail("silent-failure", fault == Missing ? "an import of a missing file reports success" : "an import of an incomplete file reports success");
    if (range) { if (cancelled && !failed) { for (int i = 0; i < 5; ++i) { if (dirty.count(i)) continue; std::vector<Imp> l = done[i]; l.push_back(imp); auto got = look(i); Quiet q; if (!world::difference(ref(l, i), got).empty()) fail("silent-cancel", "a cancelled import of an area left a part of it in tile " + std::to_string(i) + " and reports no error"); done[i] = l; } return; }
      for (int i = 0; i < 5; ++i) if (failed) dirty.insert(i); else done[i].push_back(imp); 
      return; }
    std::vector<Imp> with = done[t]; with.push_back(imp);
    if (!failed && !cancelled) { done[t] = with; if (!prefix || f == 2) same(t); else dirty.insert(t); return; }
    if (dirty.count(t)) return;
    auto got = look(t); bool has = hasData(world::tile(t).tileX, world::tile(t).tileY, world::tile(t).levelOfDetail); Quiet q;
    if (storeFaults && failed) { dirty.insert(t); return; } // the rollback may have failed as well
    if (world::difference(ref({}, t), got).empty() && !has) { done[t].clear(); count("op.rolledBack"); return; }
    if (!done[t].empty() && world::difference(ref(done[t], t), got).empty()) { count("op.untouched"); return; }
    if (cancelled && !failed && world::difference(ref(with, t), got).empty()) { done[t] = with; count("op.cancelledLate"); return; }
    if (world::difference(ref({}, t), got).empty()) fail("phantom-data", "tile " + std::to_string(t) + " reports data after an import which " + (failed ? "failed (" + e + ")" : "was cancelled") + " left nothing");
    fail("partial-import", "an import which " + (failed ? "failed (" + e + ")" : std::string("was cancelled")) + " left a part of its data: " + world::difference(ref(done[t], t), got));
  }
  struct CancellationToken_ { utymap::CancellationToken t; };
  void all() {
    for (auto &x : p.faults) if (x.kind.find("/data") != std::string::npos) storeFaults = pers;
    world::start(); world::store(pers);
    int no = 0; std::set<int> failedAt;
    for (auto &o : p.ops) { importOne(no, o, o.kind == "range"); ++no; if (!handles && !storeFaults) same((no + (int)p.seed) % 5); }
    fs::g_faultsOn = false;
    if (handles) { disconnect(); if (fs::openHandles()) fail("handle-leak", "files stay open after the engine was shut down"); return; }
    for (int i = 0; i < 5; ++i) same(i);
    for (auto &o : p.ops) if (o.kind == "import" && o.arg(4) != None && !dirty.count((int)o.arg(2))) { // once the trouble is over, the same import works
      Imp imp{(int)o.arg(0), (int)o.arg(1), world::tile((int)o.arg(2)), (int)o.arg(3)}; std::string e = world::run(imp); if (!e.empty()) fail("refused", "an import fails after an earlier one failed: " + e);
      done[(int)o.arg(2)].push_back(imp); same((int)o.arg(2)); break; }
    disconnect();
  }
};
void exec(Plan &p) { world::install((int)p.p("dataset")); Run r{p, p.p("pers") != 0, p.p("handles") != 0}; runTasks({[&] { r.all(); }}); }
void genHandles(Rng &r, Plan &p) { p.par["handles"] = 1; gen(r, p); }
Registrar a("imports", gen, exec), b("imports_handles", genHandles, exec);
}
