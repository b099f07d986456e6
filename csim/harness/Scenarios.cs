using System;
using System.Collections.Generic;
using System.Globalization;
using System.Linq;
using System.Text;
using SimRt;
using UtyDepend;
using UtyMap.Unity;
using UtyMap.Unity.Data;
using UtyMap.Unity.Geocoding;
using UtyMap.Unity.Infrastructure.Config;
using UtyMap.Unity.Infrastructure.Diagnostic;
using UtyMap.Unity.Infrastructure.IO;
using UtyMap.Unity.Infrastructure.Primitives;
using UtyRx;

namespace Harness
{
    public class Traces : ITrace
    {
        public void Debug(string c, string m) { }
        public void Debug(string c, string f, string a) { }
        public void Debug(string c, string f, string a, string b) { }
        public void Info(string c, string m) { }
        public void Info(string c, string f, string a) { }
        public void Info(string c, string f, string a, string b) { }
        public void Warn(string c, string m) { Sim.Count("trace.warn"); }
        public void Warn(string c, string f, string a) { Sim.Count("trace.warn"); }
        public void Warn(string c, string f, string a, string b) { Sim.Count("trace.warn"); }
        private static void E(string c, Exception e) { if (e is Dead) return; Sim.Count("trace.error"); Sim.Log("error " + c + " " + (e == null ? "" : e.GetType().Name)); }
        public void Error(string c, Exception e, string m) { E(c, e); }
        public void Error(string c, Exception e, string f, string a) { E(c, e); }
        public void Error(string c, Exception e, string f, string a, string b) { E(c, e); }
        public void Dispose() { }
    }

    public class Paths : IPathResolver { public string Resolve(string path) { return path.StartsWith("app/") ? path : "app/" + path; } }

    /// The thread of the player: one action at a time, at the pace of frames.
    public class Frames : IScheduler, ISchedulerPeriodic
    {
        private readonly object _thread = new object();
        public DateTimeOffset Now { get { return SimTime.OffsetUtcNow(); } }
        private class Cancel : IDisposable { public bool Done; public void Dispose() { Done = true; } }
        private void Frame(long ms, Cancel c, Action a) { Sim.After(ms + 16, () => { SimRt.Monitor.Enter(_thread); try { if (!c.Done) a(); } finally { SimRt.Monitor.Exit(_thread); } }); }
        public IDisposable Schedule(Action a) { var c = new Cancel(); Frame(0, c, a); return c; }
        public IDisposable Schedule(TimeSpan t, Action a) { var c = new Cancel(); Frame((long)t.TotalMilliseconds, c, a); return c; }
        public IDisposable SchedulePeriodic(TimeSpan t, Action a)
        {
            var c = new Cancel(); Action again = null;
            again = () => { a(); Frame((long)t.TotalMilliseconds, c, again); };
            Frame((long)t.TotalMilliseconds, c, again);
            return c;
        }
    }

    /// Asked tile.
    public class Asked
    {
        public Tile Tile; public int X, Y, Lod, Ele; public bool Disposed; public string Key; public Area Area;
        public int Phase, Seen;     // Seen: observers which were there before it was asked for
        public string Done;         // null: OnNext returned
    }

    /// What one subscriber got.
    public class Watcher : IObserver<MapData>, IObserver<Tile>, IObserver<Element>, IObserver<GeocoderResult>
    {
        public int Index;
        public Dictionary<Tile, List<string>> Data = new Dictionary<Tile, List<string>>(new SameTile());
        public Dictionary<Tile, int> Ready = new Dictionary<Tile, int>(new SameTile());
        public Dictionary<string, int> Found = new Dictionary<string, int>();
        public Dictionary<string, int> Local = new Dictionary<string, int>();
        public Dictionary<string, int> Places = new Dictionary<string, int>();
        private int _inside;
        public class SameTile : IEqualityComparer<Tile> { public bool Equals(Tile a, Tile b) { return ReferenceEquals(a, b); } public int GetHashCode(Tile t) { return System.Runtime.CompilerServices.RuntimeHelpers.GetHashCode(t); } }
        private static void Add<K>(Dictionary<K, int> d, K k) { int n; d.TryGetValue(k, out n); d[k] = n + 1; }
        public void OnNext(MapData d)
        {
            ++_inside;
            List<string> l;
            if (!Data.TryGetValue(d.Tile, out l)) Data[d.Tile] = l = new List<string>();
            var s = ""; d.Variant.Match(e => { s = "element:" + e.Tags["tile"] + ":" + e.Tags["n"] + ":" + e.Id; Same(d.Tile, e); }, m => { s = m.Name; Same(d.Tile, m); });
            l.Add(s);
            Sim.Log("w" + Index + " " + s);
            Sim.Yield();
            --_inside;
        }
        // what arrives is what the engine gave
        private static Area At(string k, out string key) { key = k; var p = k.Split('/'); return Area.Of(int.Parse(p[1]), int.Parse(p[2]), int.Parse(p[0])); }
        private static void Same(Tile t, Mesh m)
        {
            var p = m.Name.Split(':'); string k; var area = At(p[1], out k);
            var want = Engine.MeshOf(k, area, int.Parse(p[2]));
            var ok = m.Vertices.Length * 3 == want.V.Length && m.Triangles.SequenceEqual(want.T) && m.Colors.Length == want.C.Length;
            for (var i = 0; ok && i < m.Vertices.Length; ++i)
            {
                var v = t.Projection.Project(new GeoCoordinate(want.V[i * 3 + 1], want.V[i * 3]), want.V[i * 3 + 2]);
                ok = v.x == m.Vertices[i].x && v.y == m.Vertices[i].y && v.z == m.Vertices[i].z;
            }
            for (var i = 0; ok && i < want.C.Length; ++i)
            {
                var c = m.Colors[i]; var x = want.C[i];
                ok = c.r == ((x >> 24) & 0xff) / 255f && c.g == ((x >> 16) & 0xff) / 255f && c.b == ((x >> 8) & 0xff) / 255f && c.a == (x & 0xff) / 255f;
            }
            if (!ok) Sim.Fail("altered", "mesh " + m.Name + " is not what the engine gave");
        }
        private static void Same(Tile t, Element e)
        {
            string k; var area = At(e.Tags["tile"], out k);
            var want = Engine.ElementOf(k, area, int.Parse(e.Tags["n"]));
            var n = want.V.Length / 3;
            var ok = e.Geometry.Length == n && e.Heights.Length == n && Dict(e.Tags, want.Tags) && Dict(e.Styles, want.Styles);
            for (var i = 0; ok && i < n; ++i) ok = e.Geometry[i].Longitude == want.V[i * 3] && e.Geometry[i].Latitude == want.V[i * 3 + 1] && e.Heights[i] == want.V[i * 3 + 2];
            if (!ok) Sim.Fail("altered", "element " + e.Id + " of tile " + k + " is not what the engine gave");
        }
        private static bool Dict(IDictionary<string, string> d, string[] s)
        {
            if (d.Count * 2 != s.Length) return false;
            for (var i = 0; i < s.Length; i += 2) { string v; if (!d.TryGetValue(s[i], out v) || v != s[i + 1]) return false; }
            return true;
        }
        public void OnNext(Tile t) { Add(Ready, t); Sim.Log("w" + Index + " tile " + t); Sim.Yield(); }
        public void OnNext(Element e) { Add(Found, e.Tags["query"] + ":" + e.Tags["n"]); Sim.Yield(); }
        public void OnNext(GeocoderResult r)
        {
            var b = r.BoundingBox;
            Add(Places, String.Format(CultureInfo.InvariantCulture, "{0}|{1}|{2:R}|{3:R}|{4}", r.Element.Id, r.DisplayName, r.Element.Geometry[0].Latitude, r.Element.Geometry[0].Longitude,
                b == null ? "" : String.Format(CultureInfo.InvariantCulture, "{0:R}/{1:R}/{2:R}/{3:R}", b.MinPoint.Latitude, b.MinPoint.Longitude, b.MaxPoint.Latitude, b.MaxPoint.Longitude)));
            Sim.Yield();
        }
        private void Ended(string what) { Sim.Fail("ended", "subscriber " + Index + " was told that the sequence ended: " + what); }
        void IObserver<MapData>.OnCompleted() { Ended("map data"); }
        void IObserver<MapData>.OnError(Exception e) { Ended("map data, " + e.Message); }
        void IObserver<Tile>.OnCompleted() { Ended("tiles"); }
        void IObserver<Tile>.OnError(Exception e) { Ended("tiles, " + e.Message); }
        void IObserver<Element>.OnCompleted() { Ended("elements"); }
        void IObserver<Element>.OnError(Exception e) { Ended("elements, " + e.Message); }
        void IObserver<GeocoderResult>.OnCompleted() { Ended("places"); }
        void IObserver<GeocoderResult>.OnError(Exception e) { Ended("places, " + e.Message); }
    }

    /// What one subscriber got of the geocoder which works offline.
    public class LocalWatcher : IObserver<GeocoderResult>
    {
        public Watcher Owner;
        public void OnNext(GeocoderResult r) { int n; var k = r.Element.Tags["query"] + ":" + r.Element.Tags["n"] + "|" + r.DisplayName; Owner.Local.TryGetValue(k, out n); Owner.Local[k] = n + 1; Sim.Yield(); }
        public void OnCompleted() { Sim.Fail("ended", "subscriber " + Owner.Index + " was told that the sequence of local places ended"); }
        public void OnError(Exception e) { Sim.Fail("ended", "subscriber " + Owner.Index + " was told that the sequence of local places ended: " + e.Message); }
    }

    public static partial class Scenarios
    {
        // -- generation

        private static readonly int[][] Spots = { new[] { 35205, 21489, 16 }, new[] { 17602, 10744, 15 }, new[] { 19, 42, 7 } };

        public static void Generate(Plan p, Rng r)
        {
            if (p.Scenario == "registry") { GenerateRegistry(p, r); return; }
            if (p.Scenario != "tiles") throw new InvalidOperationException("no scenario " + p.Scenario);
            Par(p, "preempt", r.Chance(25) ? 0 : r.Chance(50) ? r.Range(1, 30) : r.Range(30, 250));
            Par(p, "grid", r.Range(2, 5));
            Par(p, "limit", r.Chance(50) ? 1 : 0);
            Par(p, "culture", r.Chance(15) ? 1 : 0);
            Par(p, "first", r.Below(2));
            Par(p, "mesh", r.Below(2));
            var pool = new List<int[]>();
            var n = r.Range(1, 5);
            for (var i = 0; i < n; ++i)
            {
                int lod = r.Chance(50) ? 16 : r.Chance(50) ? 15 : r.Chance(70) ? r.Range(2, 8) : r.Range(1, 19), x, y;
                if (lod >= 15 && r.Chance(80)) { x = (35205 >> 1) << (lod - 15); y = (21489 >> 1) << (lod - 15); x += r.Below(3); y += r.Below(3); }
                else { x = r.Below(1 << lod); y = r.Below(1 << lod); }
                pool.Add(new[] { x, y, lod });
                if (r.Chance(20)) pool.Add(new[] { x ^ 1, y, lod });
                if (r.Chance(15)) pool.Add(new[] { x / 2, y / 2, lod > 1 ? lod - 1 : lod });
            }
            var faults = p.P("faults", r.Chance(25) ? 0 : 1);
            var kills = p.P("kills", r.Chance(30) ? 1 : 0);
            var phases = r.Range(1, 4);
            int asked = 0, ele0 = r.Chance(50) ? r.Below(3) : -1;
            for (var ph = 0; ph < phases; ++ph)
            {
                var ops = r.Range(1, 8);
                if (r.Chance(15)) for (var i = r.Range(2, 3); i > 0; --i) p.Op("go", "watch");
                for (var i = 0; i < ops; ++i)
                {
                    var k = r.Below(100);
                    var go = r.Chance(40) ? "go" : "do";
                    if (k < 60 || asked == 0)
                    {
                        var t = pool[r.Below(pool.Count)];
                        var ele = ele0 >= 0 && r.Chance(80) ? ele0 : r.Below(3);
                        if (t[2] < 5 && ele == 1) ele = 2;
                        p.Op(go, "tile", t[0], t[1], t[2], ele, r.Below(3));
                        ++asked;
                        if (r.Chance(12)) { p.Op("go", "tile", t[0], t[1], t[2], ele, r.Below(3)); ++asked; }
                    }
                    else if (k < 72) p.Op(go, "dispose", r.Below(asked));
                    else if (k < 78) p.Op(go, "find", "t" + r.Below(4));
                    else if (k < 79) p.Op(go, "local", "t" + r.Below(4));
                    else if (k < 80) p.Op(go, "around", r.Range(-80, 80) + 0.5);
                    else if (k < 84) p.Op(go, "place", r.Below(Towns.Length), r.Below(3));
                    else if (k < 88) p.Op(go, "at", r.Range(-80, 80) + 0.5, r.Range(-170, 170) + 0.25);
                    else if (k < 91) p.Op(go, "watch");
                    else if (k < 93) p.Op(go, "edit", r.Below(5));
                    else if (k < 95) p.Op(go, "add", r.Below(2));
                    else p.Op("do", "wait", r.Chance(50) ? r.Below(100) : r.Below(4000));
                }
                p.Op("do", "settle");
                if (r.Chance(25)) p.Op("do", "restart");
            }
            if (faults != 0)
            {
                var m = r.Range(1, 4);
                for (var i = 0; i < m; ++i)
                {
                    if (r.Chance(55)) p.Fault("net", r.Range(1, 2 + asked * 2), new[] { "error", "never", "slow", "garbage", "error", "garbage" }[r.Below(6)]);
                    else p.Fault("disk", r.Range(1, 4 + asked * 6), new[] { "err", "full" }[r.Below(2)]);
                }
            }
            if (kills != 0) { var m = r.Range(1, 2); for (var i = 0; i < m; ++i) p.Fault("disk", r.Range(1, 4 + asked * 6), r.Chance(50) ? "kill" : "torn"); }
        }
        /// What each property judges.
        public static List<string> Judged(int property)
        {
            switch (property)
            {
                case 18: return new List<string> { "torn-file", "no-file", "wrong-file", "bad-request" };
                case 19: return new List<string> { "lost", "part", "twice", "foreign", "ready", "stuck", "ended", "altered", "uncaught", "thrown", "deadlock", "hang" };
                case 20: return new List<string> { "race", "style", "lost", "leak", "uncaught", "thrown", "deadlock", "hang" };
            }
            return null;
        }
        private static void Par(Plan p, string k, long v) { if (!p.Par.ContainsKey(k)) p.Par[k] = v; }

        // -- application

        private static readonly string[] Towns = { "town", "New Town", "a&b=1 c", "Ääkkölä+7 100%", "x,y;z/?#", "t\"q\"" };

        private class PlaceAsked { public string Query; public bool One; public int Seen, Phase; }

        private class App
        {
            public CompositionRoot Root; public IMapDataStore Store; public IGeocoder Geo, Local; public IMapDataEditor Editor;
            public readonly List<Watcher> Watchers = new List<Watcher>();
            public readonly List<Asked> Tiles = new List<Asked>();
            public readonly List<string> Finds = new List<string>();
            public readonly List<PlaceAsked> Places = new List<PlaceAsked>();
            public int Phase;
            private readonly Dictionary<string, Stylesheet> _styles = new Dictionary<string, Stylesheet>();
            /// Some requests share the object, so that their tiles may be equal.
            public Stylesheet Style(string n)
            {
                Stylesheet s = null;
                if (int.Parse(n) % 2 == 0 && _styles.TryGetValue(n, out s)) return s;
                return _styles[n] = new Stylesheet("css/s" + n);
            }
        }

        private static IProjection _projection;
        private static Plan _plan;

        private static App Start(Plan p)
        {
            var a = new App();
            Scheduler.MainThread = new Frames();
            var healthy = Disk.Healthy;
            Disk.Healthy = true;
            var cfg = new ConfigBuilder()
                .SetIndex("index").SetImport("index/import").SetLocalElevationData("index/data")
                .SetSrtmEleData("http://srtm.sim", "config/srtm.txt")
                .SetOsmMapData("http://osm.sim/api?data=", "(node({0},{1},{2},{3}); <; >;);out body;", "xml")
                .SetMapzenMapData("http://tile.sim/{0}/{1}/{2}/{3}.json?api_key={4}", "all", "json", "key")
                .SetMapzenEleData("http://ele.sim/height?json={0}&api_key={1}", (int)p.P("grid", 4), "ele", "key")
                .SetGeocodingServer("http://search.sim/search?");
            cfg.Add("reverse_geocoding", "http://reverse.sim/reverse?");
            cfg.Add("data/mapzen/limit", p.P("limit", 1) != 0);
            a.Root = new CompositionRoot(new Container(), cfg.Build())
                .RegisterAction((c, _) => c.RegisterInstance<ITrace>(new Traces()).RegisterInstance(new Stylesheet("css/edit")).Register(Component.For<IPathResolver>().Use<Paths>()))
                .Setup();
            a.Store = a.Root.GetService<IMapDataStore>();
            if (p.P("first", 0) == 0) { a.Store.Register("disk", "index/data"); a.Store.Register("memory"); }
            else { a.Store.Register("memory"); a.Store.Register("disk", "index/data"); }
            if (p.P("mesh", 0) != 0) a.Root.GetService<IMapDataLibrary>().EnableCache();
            a.Geo = a.Root.GetService<IGeocoder>();
            a.Local = new UtyMapGeocoder(a.Store);
            a.Editor = a.Root.GetService<IMapDataEditor>();
            Watch(a);
            Disk.Healthy = healthy;
            return a;
        }

        private static void Watch(App a)
        {
            var w = new Watcher { Index = a.Watchers.Count };
            a.Store.Subscribe((IObserver<MapData>)w);
            a.Store.Subscribe((IObserver<Tile>)w);
            a.Store.Subscribe((IObserver<Element>)w);
            a.Geo.Subscribe(w);
            a.Local.Subscribe(new LocalWatcher { Owner = w });
            w.Index = a.Watchers.Count;
            a.Watchers.Add(w);
        }

        // -- execution

        public static void Run(Plan p)
        {
            if (p.Scenario == "registry") { RunRegistry(p); return; }
            _plan = p;
            Net.Reset(p.Seed); Engine.Reset(); Engine.Missing.Clear();
            Engine.Grid = (int)p.P("grid", 4);
            Native.Handler = Engine.Call; Servers.Handler = Net.Ask;
            _projection = new CartesianProjection(new GeoCoordinate(52.5, 13.4));
            foreach (var d in new[] { "app/index/import", "app/index/data", "app/config" }) Disk.MakeDir(d);
            for (var i = 1; i <= 19; ++i) Disk.MakeDir("app/index/data/" + i);
            Disk.Files["app/config/srtm.txt"] = Encoding.ASCII.GetBytes(Schema(p));
            foreach (var f in p.Faults)
                if (f[0] == "net") Net.Faults[int.Parse(f[1])] = new[] { f[2] };
                else Disk.Faults[int.Parse(f[1])] = f[2];
            Sim.Culture = p.P("culture", 0) != 0 ? new CultureInfo("de-DE") : CultureInfo.InvariantCulture;
            System.Threading.Thread.CurrentThread.CurrentCulture = Sim.Culture;
            try
            {
                App a = null;
                var at = 0;
                while (at < p.Ops.Count && Sim.FailClass == null)
                {
                    try
                    {
                        if (a == null) a = Start(p);
                        for (; at < p.Ops.Count && Sim.FailClass == null; )
                        {
                            var op = p.Ops[at++];
                            if (op[1] == "restart") { Check(a, true); Reboot(); a = Start(p); Sim.Count("op.restart"); }
                            else if (op[1] == "settle") { Settle(a); Check(a, false); }
                            else if (op[1] == "wait") Sim.Settle(long.Parse(op[2]), false);
                            else { var app = a; if (op[0] == "go") Sim.Go("caller", () => Do(app, op)); else Do(app, op); }
                            if (Sim.FailClass != null) return;
                        }
                        Settle(a);
                        Check(a, false);
                    }
                    catch (Dead)
                    {
                        if (!Sim.Killed || Sim.FailClass != null) throw;
                        // the process died: what was asked and not answered is gone with it
                        Sim.Count("op.crash");
                        Reboot();
                        a = null;
                    }
                }
                if (Sim.FailClass != null) return;
                // When nothing fails any more, all that was ever asked is available.
                Net.Healthy = Disk.Healthy = true;
                if (a == null) a = Start(p);
                Net.Failed.Clear(); Net.FailedPlaces.Clear(); Disk.Failed.Clear(); a.Phase++;
                foreach (var k in p.Ops.Where(x => x[1] == "tile").Select(x => String.Join(" ", x.Skip(1).ToArray())).Distinct().ToList()) Do(a, ("do " + k).Split(' '));
                Settle(a);
                Check(a, true);
            }
            finally { System.Threading.Thread.CurrentThread.CurrentCulture = CultureInfo.InvariantCulture; }
        }

        private static void Reboot()
        {
            Sim.Drain();
            Statics.Reset();
            Engine.Restart();
            Net.Failed.Clear(); Net.FailedPlaces.Clear(); Disk.Failed.Clear();
        }

        private static string Schema(Plan p)
        {
            var names = new SortedDictionary<string, int>();
            foreach (var op in p.Ops)
                if (op[1] == "tile") { var t = Area.Of(int.Parse(op[2]), int.Parse(op[3]), int.Parse(op[4])); names[Net.HgtName(t.Lat0, t.Lon0)] = 0; }
            names["N00E000"] = 0; names["S43W070"] = 0;
            var sb = new StringBuilder();
            foreach (var n in names.Keys) sb.Append(n).Append(' ').Append(Sim.HashOf(n) % 6).Append('\n');
            return sb.ToString();
        }

        private static void Do(App a, string[] op)
        {
            try { Ask(a, op); }
            catch (Dead) { throw; }
            catch (Exception e)
            {
                // who asks may be told that it failed
                if (Net.Failed.Count + Net.FailedPlaces.Count + Disk.Failed.Count == 0) Sim.Fail("thrown", String.Join(" ", op) + " threw " + e.GetType().Name + ": " + e.Message);
                Sim.Count("op.threw");
                foreach (var t in a.Tiles) t.Done = null;
            }
        }

        private static void Ask(App a, string[] op)
        {
            Sim.Log("op " + String.Join(" ", op));
            switch (op[1])
            {
                case "tile":
                {
                    int x = int.Parse(op[2]), y = int.Parse(op[3]), lod = int.Parse(op[4]), ele = int.Parse(op[5]);
                    var t = new Asked { X = x, Y = y, Lod = lod, Ele = ele, Key = Engine.Key(x, y, lod), Area = Area.Of(x, y, lod), Phase = a.Phase, Seen = a.Watchers.Count, Done = "asking" };
                    t.Tile = new Tile(new QuadKey(x, y, lod), a.Style(op[6]), _projection, (ElevationDataType)ele);
                    a.Tiles.Add(t);
                    a.Store.OnNext(t.Tile);
                    t.Done = null;
                    break;
                }
                case "dispose":
                {
                    var i = int.Parse(op[2]);
                    if (i >= a.Tiles.Count || a.Tiles[i].Tile == null) break;
                    a.Tiles[i].Disposed = true;
                    a.Tiles[i].Tile.Dispose();
                    Sim.Count("op.dispose");
                    break;
                }
                case "find":
                    a.Finds.Add(op[2] + "|" + a.Watchers.Count);
                    a.Store.OnNext(new MapQuery("", op[2], "", new BoundingBox(new GeoCoordinate(0, 0), new GeoCoordinate(1, 1)), new Range<int>(16, 16)));
                    break;
                case "edit":
                {
                    var id = long.Parse(op[2]);
                    var e = Engine.ElementOf("edit" + id, new Area { MinLat = -80, MinLon = -170, MaxLat = 80, MaxLon = 170 }, 0);
                    var g = new GeoCoordinate[e.V.Length / 3]; var t = new Dictionary<string, string>();
                    for (var i = 0; i < g.Length; ++i) g[i] = new GeoCoordinate(e.V[i * 3 + 1], e.V[i * 3]);
                    for (var i = 0; i < e.Tags.Length; i += 2) t[e.Tags[i]] = e.Tags[i + 1];
                    int was; Engine.Edited.TryGetValue(id, out was);
                    a.Editor.Add("memory", new Element(id, g, new double[g.Length], t, new Dictionary<string, string>()), new Range<int>(1, 16));
                    int now; Engine.Edited.TryGetValue(id, out now);
                    if (now == was && Disk.Failed.Count == 0) Sim.Fail("lost", "element " + id + " was added and not given to the engine");
                    break;
                }
                case "local":
                    a.Finds.Add(op[2] + "|" + a.Watchers.Count);
                    a.Local.OnNext(new Tuple<string, BoundingBox>(op[2], new BoundingBox(new GeoCoordinate(0, 0), new GeoCoordinate(1, 1))));
                    break;
                case "around":
                    a.Finds.Add("addr street housenumber|" + a.Watchers.Count);
                    a.Local.OnNext(new Tuple<GeoCoordinate, float>(new GeoCoordinate(double.Parse(op[2], CultureInfo.InvariantCulture), 13), 100f));
                    break;
                case "place":
                {
                    var name = Towns[int.Parse(op[2])];
                    var box = op[3] == "0" ? null : op[3] == "1" ? new BoundingBox(new GeoCoordinate(1.5, 2.5), new GeoCoordinate(3.5, 4.75)) : new BoundingBox(new GeoCoordinate(-51.25, -0.5), new GeoCoordinate(-50.5, 1.125));
                    a.Places.Add(new PlaceAsked { Query = box == null ? name : Net.Within(name, box.MinPoint.Latitude, box.MinPoint.Longitude, box.MaxPoint.Latitude, box.MaxPoint.Longitude), Seen = a.Watchers.Count, Phase = a.Phase });
                    a.Geo.OnNext(new Tuple<string, BoundingBox>(name, box));
                    break;
                }
                case "at":
                {
                    double lat = double.Parse(op[2], CultureInfo.InvariantCulture), lon = double.Parse(op[3], CultureInfo.InvariantCulture);
                    a.Places.Add(new PlaceAsked { Query = Net.Around(lat, lon), One = true, Seen = a.Watchers.Count, Phase = a.Phase });
                    a.Geo.OnNext(new Tuple<GeoCoordinate, float>(new GeoCoordinate(lat, lon), 100f));
                    break;
                }
                case "watch": Watch(a); Sim.Count("op.watch"); break;
                case "add":
                    if (op[2] == "0") a.Store.AddTo("memory", "index/some.pbf", new Stylesheet("css/s9"), new Range<int>(1, 16), new UtyMap.Unity.CancellationToken());
                    else a.Root.GetService<IMapDataLibrary>().AddTo("memory", new Element(-7, new[] { new GeoCoordinate(1, 2) }, new double[] { 0 }, new Dictionary<string, string> { { "a", "b" } }, new Dictionary<string, string>()), new Stylesheet("css/s8"), new Range<int>(1, 16), new UtyMap.Unity.CancellationToken());
                    break;
            }
            Sim.Count("op." + op[1]);
        }

        private static void Settle(App a)
        {
            // one request per second may leave the buffer of a server
            Sim.Settle(45000 + 1000 * a.Tiles.Count, true, 5000);
        }

        // -- oracle

        private static bool Touched(Asked t)
        {
            foreach (var f in Net.Failed)
            {
                if ((f.Key == "osm" || f.Key == "mapzen") && f.Value.Covers(t.Area)) return true;
                if (f.Key == "grid" && t.Ele == 2 && Near(f.Value, t.Area)) return true;
                if (f.Key == "srtm" && t.Ele == 1 && f.Value.Has(t.Area.Lat0, t.Area.Lon0)) return true;
            }
            var q = Engine.QuadKey(t.X, t.Y, t.Lod);
            foreach (var path in Disk.Failed)
            {
                if (path.Contains("import/"))
                {
                    // file of the tile or of one it lies in
                    var name = path.Substring(path.LastIndexOf('/') + 1).Split('.')[0];
                    if (q.StartsWith(name)) return true;
                }
                else if (path.Contains("cache/")) return true;   // directories of a stylesheet: whoever asked first
                else if (path.Contains(".ele")) { if (t.Ele == 2 && path.Contains("/" + q + ".ele")) return true; }
                else if (t.Ele == 1) return true;
            }
            return false;
        }
        private static bool Near(Area a, Area b) { const double e = 2e-6; return Math.Abs(a.MinLat - b.MinLat) < e && Math.Abs(a.MaxLat - b.MaxLat) < e && Math.Abs(a.MinLon - b.MinLon) < e && Math.Abs(a.MaxLon - b.MaxLon) < e; }

        private static void Check(App a, bool last)
        {
            if (Sim.FailClass != null) return;
            foreach (var w in a.Watchers)
            {
                foreach (var t in a.Tiles)
                {
                    List<string> got; int ready;
                    if (!w.Data.TryGetValue(t.Tile, out got)) got = new List<string>();
                    w.Ready.TryGetValue(t.Tile, out ready);
                    var must = !t.Disposed && t.Phase == a.Phase && w.Index < t.Seen && !Touched(t);
                    var who = "subscriber " + w.Index + ", tile " + t.Key + " (elevation " + t.Ele + ")";
                    for (var i = 0; i < Engine.Meshes; ++i) Once(got, "mesh:" + t.Key + ":" + i, must, who);
                    for (var i = 0; i < Engine.Elements; ++i) Once(got, "element:" + t.Key + ":" + i + ":" + (t.X * 7L + t.Y * 3 + t.Lod + i), must, who);
                    if (got.Count > Engine.Meshes + Engine.Elements) Sim.Fail("foreign", who + " got " + String.Join(" ", got.ToArray()));
                    if (ready > 1 || (must && ready == 0)) Sim.Fail("ready", who + " was reported as loaded " + ready + " times");
                    Sim.Cover.Add(Sim.HashOf(t.Key + t.Ele + t.Disposed + ready + String.Join(" ", got.ToArray())));
                    if (must) Sim.Count("check.tile"); else Sim.Count("check.tileFree");
                    if (t.Done != null && t.Phase == a.Phase) Sim.Fail("stuck", who + ": the request did not return");
                }
                var finds = new Dictionary<string, int[]>();
                foreach (var f in a.Finds) { var q = f.Split('|'); int[] n; if (!finds.TryGetValue(q[0], out n)) finds[q[0]] = n = new int[2]; ++n[0]; if (int.Parse(q[1]) > w.Index) ++n[1]; }
                foreach (var f in finds)
                    for (var i = 0; i < 3; ++i)
                    {
                        Times(w.Found, f.Key + ":" + i, f.Value[1], f.Value[0], "subscriber " + w.Index + ", search for " + f.Key);
                        Times(w.Local, f.Key + ":" + i + "|City, Street " + i + ", " + i + "a", f.Value[1], f.Value[0], "subscriber " + w.Index + ", local place of search for " + f.Key);
                    }
                if (w.Local.Count > finds.Count * 3) Sim.Fail("foreign", "subscriber " + w.Index + " got local places of searches which were not made");
                if (w.Found.Count > finds.Count * 3) Sim.Fail("foreign", "subscriber " + w.Index + " got results of searches which were not made");
                var places = new Dictionary<string, int[]>();
                foreach (var f in a.Places)
                {
                    var list = Net.Places(f.Query);
                    if (f.One) list = list.Take(1).ToList();
                    var failed = f.Phase != a.Phase || Net.FailedPlaces.Contains(f.Query);
                    foreach (var x in list)
                    {
                        var k = x.Key; int[] n;
                        if (!places.TryGetValue(k, out n)) places[k] = n = new int[2];
                        ++n[0]; if (f.Seen > w.Index && !failed) ++n[1];
                    }
                }
                foreach (var x in places) Times(w.Places, x.Key, x.Value[1], x.Value[0], "subscriber " + w.Index + ", place");
                foreach (var x in w.Places.Keys) if (!places.ContainsKey(x)) Sim.Fail("foreign", "subscriber " + w.Index + " got a place which no server knows: " + x);
            }
            if (!last) { a.Phase++; Net.Failed.Clear(); Net.FailedPlaces.Clear(); Disk.Failed.Clear(); }
        }
        private static void Once(List<string> got, string what, bool must, string who)
        {
            var n = got.Count(x => x == what);
            if (n > 1) Sim.Fail("twice", who + " got " + what + " " + n + " times");
            if (n == 0 && must) Sim.Fail("lost", who + " did not get " + what + (got.Count == 0 ? " nor anything else" : ""));
        }
        private static void Times(Dictionary<string, int> got, string what, int min, int max, string who)
        {
            int n; got.TryGetValue(what, out n);
            if (n < min) Sim.Fail("lost", who + " got " + what + " " + n + " times, expected " + min);
            if (n > max) Sim.Fail("twice", who + " got " + what + " " + n + " times, expected at most " + max);
        }

        // -- registry of elements: filled by many threads

        private static void GenerateRegistry(Plan p, Rng r)
        {
            Par(p, "preempt", r.Range(20, 400));
            var tiles = r.Range(1, 3); var threads = r.Range(1, 4);
            Par(p, "tiles", tiles);
            for (var t = 0; t < threads; ++t)
            {
                var n = r.Range(1, 6);
                for (var i = 0; i < n; ++i)
                {
                    var k = r.Below(10);
                    if (k < 6) p.Op(t, "register", r.Below(tiles), r.Below(3));
                    else if (k < 8) p.Op(t, "has", r.Below(tiles), r.Below(3));
                    else p.Op(t, "dispose", r.Below(tiles));
                }
            }
        }

        private static void RunRegistry(Plan p)
        {
            var projection = new CartesianProjection(new GeoCoordinate(52.5, 13.4));
            var tiles = new Tile[p.P("tiles", 1)];
            for (var i = 0; i < tiles.Length; ++i) tiles[i] = new Tile(new QuadKey(i, i, 5), new Stylesheet("s"), projection, ElevationDataType.Flat);
            // per (tile, id): a registration which returned before disposal began / one which may count
            var began = new long[tiles.Length]; for (var i = 0; i < tiles.Length; ++i) began[i] = long.MaxValue;
            var sure = new Dictionary<string, bool>();
            long clock = 0;
            foreach (var g in p.Ops.GroupBy(x => x[0]).ToList())
            {
                var ops = g.ToList();
                Sim.Go("caller", () =>
                {
                    foreach (var op in ops)
                    {
                        var t = int.Parse(op[2]);
                        Sim.Log("op " + String.Join(" ", op));
                        Sim.Count("op." + op[1]);
                        if (op[1] == "register")
                        {
                            var id = long.Parse(op[3]);
                            tiles[t].Register(id);
                            if (began[t] == long.MaxValue) { sure[t + ":" + id] = true; if (!tiles[t].Has(id) && began[t] == long.MaxValue) Sim.Fail("lost", "tile " + t + " does not know element " + id + " which it registered"); }
                        }
                        else if (op[1] == "has") tiles[t].Has(long.Parse(op[3]));
                        else { if (began[t] == long.MaxValue) began[t] = ++clock; tiles[t].Dispose(); }
                    }
                });
            }
            Sim.Settle(1000, true);
            if (Sim.FailClass != null) return;
            var probe = new Tile(new QuadKey(9, 9, 5), new Stylesheet("s"), projection, ElevationDataType.Flat);
            for (long id = 0; id < 3; ++id)
            {
                var live = false;
                for (var t = 0; t < tiles.Length; ++t) live |= began[t] == long.MaxValue && sure.ContainsKey(t + ":" + id);
                if (probe.Has(id) != live) Sim.Fail(live ? "lost" : "leak", "element " + id + (live ? " is registered by a live tile, a new tile does not know it" : " is registered by no live tile, a new tile takes it for registered"));
                Sim.Count("check.id");
            }
        }
    }
}
