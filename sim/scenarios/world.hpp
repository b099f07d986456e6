// The engine behind its C API, with styles, map data and elevation in the simulated file system.
#ifndef VERIF_WORLD_HPP
#define VERIF_WORLD_HPP
#include "sim.hpp"
#include "CancellationToken.hpp"
#include "utils/GeoUtils.hpp"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <set>
#include <sstream>

typedef void OnNewDirectory(const char *path);
typedef void OnMeshBuilt(int, const char *, const double *, int, const int *, int, const int *, int, const double *, int, const int *, int);
typedef void OnElementLoaded(int, std::uint64_t, const char **, int, const double *, int, const char **, int);
typedef void OnError(const char *);
extern "C" {
void disconnect();
void connect(const char *, OnError *) asm("connect");
void registerStylesheet(const char *, OnNewDirectory *);
void registerInMemoryStore(const char *);
void registerPersistentStore(const char *, const char *, OnNewDirectory *);
void enableMeshCache(int);
void addDataInRange(const char *, const char *, const char *, int, int, OnError *, utymap::CancellationToken *);
void addDataInBoundingBox(const char *, const char *, const char *, double, double, double, double, int, int, OnError *, utymap::CancellationToken *);
void addDataInQuadKey(const char *, const char *, const char *, int, int, int, OnError *, utymap::CancellationToken *);
void addDataInElement(const char *, const char *, std::uint64_t, const double *, int, const char **, int, int, int, OnError *, utymap::CancellationToken *);
bool hasData(int, int, int);
void getDataByText(int, const char *, const char *, const char *, double, double, double, double, int, int, OnElementLoaded *, OnError *, utymap::CancellationToken *);
void getDataByQuadKey(int, const char *, int, int, int, int, OnMeshBuilt *, OnElementLoaded *, OnError *, utymap::CancellationToken *);
double getElevationByQuadKey(int, int, int, int, double, double);
void sim_forget_application();
int sim_has_application();
void *sim_swap_application(void *);
}

namespace world {
using utymap::QuadKey; using utymap::BoundingBox; using utymap::GeoCoordinate; using utymap::CancellationToken;

extern int g_datas;                     // different input files of every format
extern bool g_extra;                    // a second, in-memory store is registered
extern std::string g_dir;                // "/sim/app/": index, cache and data of the engine in use
std::string styleFile(int s);
// Tiles 0-3: 2x2 block at detail 16; 4: the tile over them at detail 15; 5: a place without data
QuadKey tile(int i);
const int Tiles = 6;

struct Item { bool mesh; std::string text; uint64_t id = 0; bool operator<(const Item &o) const { return text < o.text; } bool operator==(const Item &o) const { return text == o.text; } };
struct Request {
  int tag = 0; std::vector<Item> items; std::vector<std::string> errors; CancellationToken token;
  std::function<void()> on;              // called inside of every result callback
  long long cancelAt = -1;               // cancel inside of the n-th result callback
  int after = 0;                         // callbacks delivered after the request was cancelled
  std::vector<std::string> sorted() const { std::vector<std::string> v; for (auto &i : items) v.push_back(i.text); std::sort(v.begin(), v.end()); return v; }
};

// Map data as the source of every input file.
typedef std::vector<std::pair<std::string, std::string>> TagList;
struct MapNode { uint64_t id; double lat, lon; TagList tags; };
struct MapWay { uint64_t id; std::vector<uint64_t> refs; TagList tags; };
struct Member { uint64_t first; std::string second; char type; Member(uint64_t f, const std::string &s, char t = 'w') : first(f), second(s), type(t) {} };
struct MapRel { uint64_t id; std::vector<Member> members; TagList tags; };
struct Map { std::vector<MapNode> nodes; std::vector<MapWay> ways; std::vector<MapRel> rels; };
// The closed rings of a multipolygon, nothing if it has others.
std::vector<std::vector<uint64_t>> ringsOf(const Map &m, const MapRel &r);
std::string osmXml(const Map &m), osmJson(const Map &m);
std::vector<std::string> osmPbf(const Map &m);
std::map<std::string, std::string> shape(const Map &m, int kind);
// Styles, map data files, elevation files.
void install(int dataset, int pair = 0);   // pair: how the two styles differ
int pairs(), groundPairs();               // pairs 1..groundPairs() differ on the ground
std::string osmXml(int dataset), osmJson(int dataset);
// Blocks of the file, one by one (header, nodes.., ways.., relations).
std::vector<std::string> osmPbf(int dataset);
// kind 0 points, 1 lines, 2 areas; files name -> content (.shp .shx .dbf)
std::map<std::string, std::string> shape(int dataset, int kind);
const int Formats = 6;                   // xml json pbf points lines areas
std::string inputFile(int format, int d);// d: 0 or 1
std::string grid(int tile, int variant);

void start(bool cache = false);          // connect + stylesheets; fails the run on an error
void forget();                           // the process was killed
std::string startError();                // connect as is; returns error text
void store(bool persistent, const char *key = "store");
std::string import(int style, const std::string &path, QuadKey k, CancellationToken *t = nullptr, const char *key = "store");
std::string importRange(int style, const std::string &path, int lod0, int lod1, CancellationToken *t = nullptr, const char *key = "store");
std::string importBox(int style, const std::string &path, BoundingBox b, int lod0, int lod1, CancellationToken *t = nullptr, const char *key = "store");
std::string importElement(int style, uint64_t id, const std::vector<std::pair<double, double>> &pts, const std::vector<std::pair<std::string, std::string>> &tags, int lod0, int lod1, const char *key = "store");
void query(Request &r, int style, QuadKey k, int ele = 0);
void text(Request &r, const std::string &no, const std::string &all, const std::string &any, BoundingBox b, int lod0, int lod1);
void textFor(Request &r, int words);      // one of six searches around the tiles
// What an engine delivers which did nothing but these imports and this request.
struct Imp { int format, data; QuadKey where; int style = 0; int lod0 = 0, lod1 = 0;
  std::string path;                      // if not a standard file
  bool extra = false;                    // into the second store
  uint64_t element = 0; std::vector<std::pair<double, double>> pts; std::vector<std::pair<std::string, std::string>> tags;  // an element instead of a file
  std::string key() const; };
std::string run(const Imp &i, CancellationToken *t = nullptr);
std::vector<std::string> reference(bool persistent, const std::vector<Imp> &imports, int style, QuadKey k, int ele = 0, int words = -1);
std::string difference(const std::vector<std::string> &want, const std::vector<std::string> &got, bool subset = false);
// with any stylesheet
void registerStyle(const std::string &path);
void queryStyle(Request &r, const std::string &style, QuadKey k, int ele = 0);
std::string importStyle(const std::string &style, const Imp &i, const char *key);
uint64_t hash(const std::vector<std::string> &v);
}
#endif
