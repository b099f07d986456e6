using System;
using System.Collections.Generic;
using System.Globalization;
using System.IO;
using System.Linq;
using System.Text;
using SimRt;

namespace Harness
{
    /// Tile of the map, by plain Web Mercator arithmetic of its own.
    public struct Area
    {
        public double MinLat, MinLon, MaxLat, MaxLon;
        public static Area Of(int x, int y, int lod)
        {
            double n = Math.Pow(2, lod);
            return new Area { MinLon = x / n * 360 - 180, MaxLon = (x + 1) / n * 360 - 180, MaxLat = Lat(y / n), MinLat = Lat((y + 1) / n) };
        }
        private static double Lat(double y) { return Math.Atan(Math.Sinh(Math.PI * (1 - 2 * y))) * 180 / Math.PI; }
        public double Lat0 { get { return (MinLat + MaxLat) / 2; } }
        public double Lon0 { get { return (MinLon + MaxLon) / 2; } }
        public bool Covers(Area o) { const double e = 1e-7; return MinLat <= o.MinLat + e && MinLon <= o.MinLon + e && MaxLat >= o.MaxLat - e && MaxLon >= o.MaxLon - e; }
        public bool Has(double lat, double lon) { return lat >= MinLat && lat <= MaxLat && lon >= MinLon && lon <= MaxLon; }
    }

    /// The servers of the simulated internet. Every answer is a function of what was asked.
    public class Place
    {
        public long Id; public string Name; public double Lat, Lon;
        public bool Boxed { get { return Id % 2 == 0; } }
        public string Key { get { return String.Format(CultureInfo.InvariantCulture, "{0}|{1}|{2:R}|{3:R}|{4}", Id, Name, Lat, Lon, Boxed ? String.Format(CultureInfo.InvariantCulture, "{0:R}/{1:R}/{2:R}/{3:R}", Lat - 0.5, Lon - 0.25, Lat + 0.5, Lon + 0.25) : ""); } }
    }

    public static class Net
    {
        public static int Asked;
        public static readonly Dictionary<int, string[]> Faults = new Dictionary<int, string[]>();
        public static ulong Seed;
        public static bool Healthy;
        /// Areas whose data were asked for and did not arrive (kind, area), since the list was cleared.
        public static readonly List<KeyValuePair<string, Area>> Failed = new List<KeyValuePair<string, Area>>();
        public static readonly List<string> FailedPlaces = new List<string>();
        private static string _place;

        public static void Reset(ulong seed) { Asked = 0; Faults.Clear(); Seed = seed; Healthy = false; Failed.Clear(); FailedPlaces.Clear(); }

        public static Answer Ask(string url)
        {
            var n = ++Asked;
            var rng = new Rng(Seed * 1000003 + (ulong)n);
            string kind; Area area;
            var bytes = Content(url, out kind, out area);
            var a = new Answer { Bytes = bytes, DelayMs = rng.Chance(30) ? 0 : rng.Below(rng.Chance(80) ? 400 : 5000) };
            Sim.Count("net.requests");
            if (bytes == null) { Sim.Count("net.notFound"); a.Error = new System.Net.WebException("The remote server returned an error: (404) Not Found."); Note(kind, area, url); return a; }
            string[] f;
            if (Healthy || !Faults.TryGetValue(n, out f)) return a;
            switch (f[0])
            {
                case "error": a.Error = new System.Net.WebException("The request was aborted"); Note(kind, area, url); break;
                case "never": a.Never = true; Note(kind, area, url); break;
                case "slow": a.DelayMs = 20000; break;
                case "garbage":
                    // something which is no answer of this server, and can be recognised as such
                    if (kind != "grid" && kind != "srtm" && kind != "place") return a;
                    var how = rng.Below(kind == "srtm" ? 6 : 4);
                    if (how == 0) a.Bytes = new byte[0];
                    else if (how == 1) { var k = rng.Below(Cut(kind, bytes)); a.Bytes = new byte[k]; Array.Copy(bytes, a.Bytes, k); }
                    else if (how == 2) a.Bytes = Encoding.UTF8.GetBytes("<html><body>503 Service Unavailable</body></html>");
                    else if (how > 3) { a.Bytes = (byte[])bytes.Clone(); a.Bytes[30 + rng.Below(bytes.Length - 60)] ^= (byte)(1 << rng.Below(8)); }
                    else a.Bytes = Encoding.UTF8.GetBytes("{\"error\":\"limit exceeded\"}");
                    Note(kind, area, url);
                    break;
            }
            Sim.Count("fault.net_" + f[0]);
            return a;
        }
        /// Nothing is whole of what is cut before this.
        private static int Cut(string kind, byte[] b) { return kind == "srtm" ? b.Length - 22 : Math.Max(1, Encoding.UTF8.GetString(b).LastIndexOf(kind == "grid" ? ',' : '{')); }
        private static void Note(string kind, Area a, string url) { if (kind == "place") FailedPlaces.Add(_place); else Failed.Add(new KeyValuePair<string, Area>(kind, a)); }

        private static ulong H(string s) { return Sim.HashOf(s); }
        private static string Pad(string s) { var n = (int)(H(s) % 5000); if (H(s) % 7 == 0) n += 12000; var sb = new StringBuilder(n); for (var i = 0; i < n; ++i) sb.Append((char)('a' + (H(s) + (ulong)i * 7919) % 26)); return sb.ToString(); }

        /// A document about an area, with an end which cannot be missed.
        public static string Document(string kind, Area a)
        {
            var head = String.Format(CultureInfo.InvariantCulture, "{0}|{1:R}|{2:R}|{3:R}|{4:R}|", kind, a.MinLat, a.MinLon, a.MaxLat, a.MaxLon);
            var body = head + Pad(head);
            return body + "|" + H(body).ToString("x");
        }
        public static bool Whole(string doc, out string kind, out Area a)
        {
            kind = null; a = new Area();
            var p = doc.Split('|');
            if (p.Length != 7) return false;
            kind = p[0];
            a = new Area { MinLat = D(p[1]), MinLon = D(p[2]), MaxLat = D(p[3]), MaxLon = D(p[4]) };
            return p[6] == H(doc.Substring(0, doc.LastIndexOf('|'))).ToString("x");
        }
        private static double D(string s) { double d; return double.TryParse(s, NumberStyles.Float, CultureInfo.InvariantCulture, out d) ? d : double.NaN; }

        public static double Height(double lat, double lon) { return Math.Floor((Math.Sin(lat * 37) + Math.Cos(lon * 53)) * 500 + 1000); }

        public static byte[] HgtData(string name)
        {
            var h = H(name); var n = 3000 + (int)(h % 3000);
            var b = new byte[n];
            for (var i = 0; i < n; ++i) b[i] = (byte)((h + (ulong)i * 31) >> (i % 5));
            return b;
        }
        public static string HgtName(double lat, double lon)
        {
            var y = (int)Math.Floor(lat); var x = (int)Math.Floor(lon);
            return (y >= 0 ? "N" : "S") + Math.Abs(y).ToString("00") + (x >= 0 ? "E" : "W") + Math.Abs(x).ToString("000");
        }

        private static byte[] Content(string url, out string kind, out Area area)
        {
            area = new Area();
            var u = Uri.UnescapeDataString(url);
            if (u.Contains("osm.sim"))
            {
                kind = "osm";
                var p = u.Substring(u.IndexOf('(') + 1).Substring("node(".Length); p = p.Substring(0, p.IndexOf(')'));
                var c = p.Split(',');
                area = new Area { MinLat = D(c[0]), MinLon = D(c[1]), MaxLat = D(c[2]), MaxLon = D(c[3]) };
                return Encoding.UTF8.GetBytes(Document(kind, area));
            }
            if (u.Contains("tile.sim"))
            {
                kind = "mapzen";
                var c = u.Substring(u.IndexOf("/all/") + 5).Split('/', '.');
                int lod = int.Parse(c[0]), x = int.Parse(c[1]), y = int.Parse(c[2]);
                area = Area.Of(x, y, lod);
                return x < 0 || y < 0 || x >= 1 << lod || y >= 1 << lod ? null : Encoding.UTF8.GetBytes(Document(kind, area));
            }
            if (u.Contains("ele.sim"))
            {
                kind = "grid";
                var s = Json(u.Substring(u.IndexOf("polyline\":\"") + 11));
                if (s == null) { Sim.Fail("bad-request", "the server of heights was asked with something which is no JSON: " + u); return null; }
                var sb = new StringBuilder("{\"encoded_polyline\":\"x\",\"height\":[");
                var first = true;
                area = new Area { MinLat = 90, MinLon = 180, MaxLat = -90, MaxLon = -180 };
                foreach (var q in Decode(s))
                {
                    if (!first) sb.Append(','); first = false;
                    sb.Append(Height(q[0], q[1]).ToString(CultureInfo.InvariantCulture));
                    area.MinLat = Math.Min(area.MinLat, q[0]); area.MaxLat = Math.Max(area.MaxLat, q[0]); area.MinLon = Math.Min(area.MinLon, q[1]); area.MaxLon = Math.Max(area.MaxLon, q[1]);
                }
                return Encoding.UTF8.GetBytes(sb.Append("]}").ToString());
            }
            if (u.Contains("srtm.sim"))
            {
                kind = "srtm";
                var name = u.Substring(u.LastIndexOf('/') + 1);
                if (!name.EndsWith(".hgt.zip") || name.Length != 15) return null;
                name = name.Substring(0, 7);
                int lat = int.Parse(name.Substring(1, 2)) * (name[0] == 'S' ? -1 : 1), lon = int.Parse(name.Substring(4, 3)) * (name[3] == 'W' ? -1 : 1);
                area = new Area { MinLat = lat, MinLon = lon, MaxLat = lat + 1, MaxLon = lon + 1 };
                return Zip(name + ".hgt", HgtData(name));
            }
            if (u.Contains("search.sim") || u.Contains("reverse.sim"))
            {
                kind = "place";
                var rev = u.Contains("reverse.sim");
                var par = new Dictionary<string, string>();
                foreach (var kv in url.Substring(url.IndexOf('?') + 1).Split('&'))
                {
                    var eq = kv.IndexOf('='); if (eq < 0) continue;
                    par[Uri.UnescapeDataString(kv.Substring(0, eq).Replace('+', ' '))] = Uri.UnescapeDataString(kv.Substring(eq + 1).Replace('+', ' '));
                }
                string q, fmt, box;
                _place = "?";
                if (!par.TryGetValue("format", out fmt) || fmt != "json") return null;
                if (rev)
                {
                    string lat, lon;
                    if (!par.TryGetValue("lat", out lat) || !par.TryGetValue("lon", out lon) || double.IsNaN(D(lat)) || double.IsNaN(D(lon))) return null;
                    q = Around(D(lat), D(lon));
                }
                else
                {
                    if (!par.TryGetValue("q", out q)) return null;
                    if (par.TryGetValue("viewbox", out box))
                    {
                        var c = box.Split(',').Select(x => D(x)).ToArray();
                        if (c.Length != 4 || c.Any(x => double.IsNaN(x))) return null;
                        q = Within(q, c[1], c[0], c[3], c[2]);
                    }
                }
                _place = q;
                var list = new List<string>();
                foreach (var r in Places(q))
                    list.Add(String.Format(CultureInfo.InvariantCulture, r.Id % 2 == 0 ? "{{\"osm_id\":\"{0}\",\"boundingbox\":[\"{4:R}\",\"{5:R}\",\"{6:R}\",\"{7:R}\"],\"lat\":\"{1:R}\",\"lon\":\"{2:R}\",\"display_name\":\"{3}\"}}"
                        : "{{ \"display_name\" : \"{3}\", \"lon\": \"{2:R}\", \"lat\": \"{1:R}\", \"osm_id\": {0}, \"address\": {{ \"road\": \"[1, 2}}\" }} }}",
                        r.Id, r.Lat, r.Lon, r.Name.Replace("\\", "\\\\").Replace("\"", "\\\""), r.Lat - 0.5, r.Lat + 0.5, r.Lon - 0.25, r.Lon + 0.25));
                return Encoding.UTF8.GetBytes(u.Contains("reverse.sim") ? list[0] : "[" + String.Join(",", list.ToArray()) + "]");
            }
            kind = "?";
            return null;
        }

        /// String of JSON up to its quote, null when it is none.
        private static string Json(string s)
        {
            var sb = new StringBuilder();
            for (var i = 0; i < s.Length; ++i)
            {
                if (s[i] == '"') return i + 1 < s.Length && s[i + 1] == '}' ? sb.ToString() : null;
                if (s[i] != '\\') { sb.Append(s[i]); continue; }
                if (++i >= s.Length || "\"\\/bfnrtu".IndexOf(s[i]) < 0) return null;
                if (s[i] == '"' || s[i] == '\\' || s[i] == '/') sb.Append(s[i]);
                else if (s[i] == 'u')
                {
                    int code;
                    if (i + 4 >= s.Length || !int.TryParse(s.Substring(i + 1, 4), NumberStyles.HexNumber, CultureInfo.InvariantCulture, out code)) return null;
                    sb.Append((char)code); i += 4;
                }
                else sb.Append(' ');
            }
            return null;
        }

        /// What the search server knows.
        public static List<Place> Places(string q)
        {
            var r = new List<Place>();
            var n = 1 + (int)(H(q) % 3);
            for (var i = 0; i < n; ++i)
            {
                var h = H(q + i);
                r.Add(new Place { Id = (long)(h % (h % 3 == 0 ? 60000000000UL : 1000000UL)) + 1, Name = "place " + q + (h % 5 == 0 ? ", \"[{x}]\\" : "") + " " + i, Lat = (double)(h % 160) - 79.5, Lon = (double)(h % 340) - 169.25 });
            }
            return r;
        }
        public static string Around(double lat, double lon) { return String.Format(CultureInfo.InvariantCulture, "{0:F3}/{1:F3}", lat, lon); }
        public static string Within(string q, double minLat, double minLon, double maxLat, double maxLon) { return String.Format(CultureInfo.InvariantCulture, "{0}@{1:F3}/{2:F3}/{3:F3}/{4:F3}", q, minLat, minLon, maxLat, maxLon); }

        public static List<double[]> Decode(string s)
        {
            var r = new List<double[]>();
            int at = 0, lat = 0, lon = 0;
            for (var i = 0; i < s.Length; ++i) if (s[i] < 63 || s[i] > 127) return r;
            while (at < s.Length) { lat += Number(s, ref at); lon += Number(s, ref at); r.Add(new[] { lat / 1e6, lon / 1e6 }); }
            return r;
        }
        private static int Number(string s, ref int at)
        {
            int shift = 0, v = 0, b;
            do { b = s[at++] - 63; v |= (b & 0x1f) << shift; shift += 5; } while (b >= 0x20);
            return (v & 1) != 0 ? ~(v >> 1) : v >> 1;
        }

        private static byte[] Zip(string name, byte[] data)
        {
            var packed = new MemoryStream();
            using (var d = new System.IO.Compression.DeflateStream(packed, System.IO.Compression.CompressionMode.Compress, true)) d.Write(data, 0, data.Length);
            var z = packed.ToArray(); var n = Encoding.ASCII.GetBytes(name); var crc = Crc(data);
            var m = new MemoryStream(); var w = new BinaryWriter(m);
            w.Write(0x04034b50); w.Write((short)20); w.Write((short)0); w.Write((short)8); w.Write(0); w.Write(crc); w.Write(z.Length); w.Write(data.Length); w.Write((short)n.Length); w.Write((short)0);
            w.Write(n); w.Write(z);
            var dir = (int)m.Length;
            w.Write(0x02014b50); w.Write((short)20); w.Write((short)20); w.Write((short)0); w.Write((short)8); w.Write(0); w.Write(crc); w.Write(z.Length); w.Write(data.Length);
            w.Write((short)n.Length); w.Write((short)0); w.Write((short)0); w.Write((short)0); w.Write((short)0); w.Write(0); w.Write(0); w.Write(n);
            var size = (int)m.Length - dir;
            w.Write(0x06054b50); w.Write((short)0); w.Write((short)0); w.Write((short)1); w.Write((short)1); w.Write(size); w.Write(dir); w.Write((short)0);
            w.Flush();
            return m.ToArray();
        }
        private static uint Crc(byte[] d) { uint c = 0xffffffff; foreach (var b in d) { c ^= b; for (var k = 0; k < 8; ++k) c = (c & 1) != 0 ? (c >> 1) ^ 0xedb88320 : c >> 1; } return ~c; }
    }

    /// Stands for the native engine: keeps documents per tile; what it reads it judges.
    public static class Engine
    {
        /// Persistent store: survives the process.
        public static Dictionary<string, string> Durable = new Dictionary<string, string>();
        /// Tiles which got a part of their elements so far.
        private static HashSet<string> _partial = new HashSet<string>();
        private static List<string> _stores = new List<string>();
        private static Dictionary<string, bool> _styles = new Dictionary<string, bool>();
        public static readonly Dictionary<long, int> Edited = new Dictionary<long, int>();
        public static int Grid;
        public const string Index = "app/index";

        public static void Reset() { Durable = new Dictionary<string, string>(); Restart(); }
        public static void Restart() { _partial = new HashSet<string>(); Edited.Clear(); _stores = new List<string>(); _styles = new Dictionary<string, bool>(); }

        private static void Invoke(object d, params object[] args)
        {
            try { ((Delegate)d).DynamicInvoke(args); }
            catch (System.Reflection.TargetInvocationException e)
            {
                if (e.InnerException is Dead) throw new Dead();
                throw e.InnerException;
            }
        }
        private static bool Cancelled(object token) { return System.Runtime.InteropServices.Marshal.ReadInt32((IntPtr)token) != 0; }
        public static string Key(int x, int y, int lod) { return lod + "/" + x + "/" + y; }

        public static object Call(string name, object[] a)
        {
            Sim.Alive();
            switch (name)
            {
                case "connect": case "disconnect": case "enableMeshCache": return null;
                case "registerStylesheet": Sim.Log("style " + a[0]); if (_styles.ContainsKey((string)a[0])) Sim.Fail("style", "stylesheet " + a[0] + " is registered with the engine again"); Invoke(a[1], Index + "/cache/x/1"); Sim.Yield(); _styles[(string)a[0]] = true; return null;
                case "registerInMemoryStore": _stores.Add((string)a[0]); return null;
                case "registerPersistentStore":
                    _stores.Add((string)a[0]);
                    for (var i = 1; i <= 19; ++i) Invoke(a[2], a[1] + "/" + i);
                    return null;
                case "hasData": { var k = Key((int)a[0], (int)a[1], (int)a[2]); Sim.Log("has " + k); return Durable.ContainsKey(k) || _partial.Contains(k); }
                case "addDataInQuadKey": Style(a[1]); Add((string)a[0], (string)a[2], (int)a[3], (int)a[4], (int)a[5], a[6], a[7]); return null;
                case "addDataInRange": Style(a[1]); Sim.Log(name); return null;
                case "addDataInElement":
                {
                    Style(a[1]); Sim.Log(name + " " + a[2]); if ((long)a[2] < 0) return null; Sim.Count("op.edit");
                    var e = ElementOf("edit" + a[2], new Area { MinLat = -80, MinLon = -170, MaxLat = 80, MaxLon = 170 }, 0);
                    var v = (double[])a[3]; var t = (string[])a[5]; var n = e.V.Length / 3;
                    var ok = (string)a[0] == "memory" && (int)a[4] == v.Length && v.Length == n * 2 && (int)a[6] == t.Length && t.Length == e.Tags.Length && (int)a[7] == 1 && (int)a[8] == 16;
                    for (var i = 0; ok && i < n; ++i) ok = v[i * 2] == e.V[i * 3 + 1] && v[i * 2 + 1] == e.V[i * 3];
                    for (var i = 0; ok && i < t.Length; i += 2) { var at = Array.IndexOf(e.Tags, t[i]); ok = at >= 0 && at % 2 == 0 && e.Tags[at + 1] == t[i + 1]; }
                    if (!ok) Sim.Fail("altered", "element " + a[2] + " given to the engine is not the one which was added");
                    int c; Edited.TryGetValue((long)a[2], out c); Edited[(long)a[2]] = c + 1;
                    return null;
                }
                case "getDataByQuadKey": Style(a[1]); Get((int)a[0], (int)a[2], (int)a[3], (int)a[4], (int)a[5], a[6], a[7], a[8], a[9]); return null;
                case "getDataByText": Find((string)a[1] == "" && ((string)a[2] == "" || (string)a[3] == "") && Box(a) ? (string)a[2] + (string)a[3] : "?", a[10], a[11], a[12]); return null;
                case "getElevationByQuadKey": return 0.0;
            }
            throw new InvalidOperationException("harness: no native function " + name);
        }

        private static bool Box(object[] a)
        {
            double lat0 = (double)a[4], lon0 = (double)a[5], lat1 = (double)a[6], lon1 = (double)a[7];
            if ((int)a[8] != 16 || (int)a[9] != 16) return false;
            if ((string)a[2] == "") return lat0 == 0 && lon0 == 0 && lat1 == 1 && lon1 == 1;
            if (!((string)a[2]).StartsWith("addr")) return lat0 == 0 && lon0 == 0 && lat1 == 1 && lon1 == 1;
            var h = lat1 - lat0; // about 100 m around the place
            return h > 0.0005 && h < 0.005 && Math.Abs(Math.Abs((lat0 + lat1) / 2 % 1) - 0.5) < 1e-6 && Math.Abs((lon0 + lon1) / 2 - 13) < 1e-6 && lon1 > lon0;
        }

        private static void Style(object path) { if (!_styles.ContainsKey((string)path)) Sim.Fail("style", "the engine was told to use stylesheet " + path + " before it was registered"); }

        private static void Add(string store, string path, int x, int y, int lod, object error, object token)
        {
            var k = Key(x, y, lod);
            Sim.Log("import " + k + " from " + path);
            Sim.Count("op.import");
            if (!_stores.Contains(store)) { Invoke(error, "no store " + store); return; }
            byte[] data;
            if (!Disk.Files.TryGetValue(Disk.Norm(path), out data)) { Sim.Fail("no-file", "the engine was told to import " + path + " for tile " + k + ", which does not exist"); Invoke(error, "cannot read " + path); return; }
            string kind; Area a;
            var text = Encoding.UTF8.GetString(data);
            if (!Net.Whole(text, out kind, out a)) { Sim.Fail("torn-file", "the engine was told to import " + path + " for tile " + k + ", which holds " + data.Length + " bytes and is no whole answer of the server"); Invoke(error, "bad data in " + path); return; }
            if (!a.Covers(Area.Of(x, y, lod))) Sim.Fail("wrong-file", "the engine was told to import " + path + " for tile " + k + ", which holds data of another area: " + text.Substring(0, Math.Min(90, text.Length)));
            if (Durable.ContainsKey(k) || _partial.Contains(k)) Sim.Fail("twice", "data of tile " + k + " are imported once more, its elements are doubled");
            for (var i = 0; i < 4; ++i)
            {
                Sim.Yield();
                if (Cancelled(token)) { Sim.Log("import cancelled"); _partial.Remove(k); return; }
                _partial.Add(k);
            }
            _partial.Remove(k);
            Durable[k] = text;
            Sim.Log("imported " + k);
        }

        public const int Meshes = 2, Elements = 2;
        private static void Get(int tag, int x, int y, int lod, int ele, object mesh, object element, object error, object token)
        {
            var k = Key(x, y, lod);
            Sim.Log("tile " + k + " elevation " + ele);
            Sim.Count("op.tile");
            var area = Area.Of(x, y, lod);
            if (_partial.Contains(k) && !Cancelled(token)) Sim.Fail("part", "tile " + k + " is loaded while its data are still imported, so it gets a part of them");
            if (ele != 0)
            {
                var path = ele == 2 ? Index + "/data/" + lod + "/" + QuadKey(x, y, lod) + ".ele" : Index + "/data/" + Net.HgtName(area.Lat0, area.Lon0) + ".hgt";
                byte[] data;
                if (!Disk.Files.TryGetValue(Disk.Norm(path), out data)) { Sim.Count("op.noElevation"); Missing.Add(k + "/" + ele); Invoke(error, "Cannot find elevation file:" + path); return; }
                if (ele == 2 ? !GridWhole(data, area) : !Same(data, Net.HgtData(Net.HgtName(area.Lat0, area.Lon0))))
                    Sim.Fail("torn-file", "the engine reads heights of tile " + k + " from " + path + ", which holds " + data.Length + " bytes and not the heights the server has");
            }
            for (var i = 0; i < Meshes; ++i)
            {
                Sim.Yield();
                if (Cancelled(token)) { Sim.Log("tile cancelled"); return; }
                var m = MeshOf(k, area, i);
                Invoke(mesh, tag, "mesh:" + k + ":" + i, m.V, m.V.Length, m.T, m.T.Length, m.C, m.C.Length, new double[0], 0, new int[0], 0);
            }
            for (var i = 0; i < Elements && Durable.ContainsKey(k); ++i)
            {
                Sim.Yield();
                if (Cancelled(token)) { Sim.Log("tile cancelled"); return; }
                var e = ElementOf(k, area, i);
                Invoke(element, tag, (long)(x * 7 + y * 3 + lod + i), e.Tags, e.Tags.Length, e.V, e.V.Length, e.Styles, e.Styles.Length);
            }
        }
        public class MeshData { public double[] V; public int[] T, C; }
        public class ElementData { public double[] V; public string[] Tags, Styles; }
        private static readonly int[] Palette = { -1, 0x102030ff, 0x203010ff, 0 };
        public static MeshData MeshOf(string k, Area a, int i)
        {
            var r = new Rng(Sim.HashOf(k + i)); var n = r.Chance(10) ? 0 : r.Range(3, 7); var t = n == 0 ? 0 : r.Range(1, 4);
            var m = new MeshData { V = Points(r, a, n), T = new int[t * 3], C = new int[n] };
            for (var j = 0; j < m.T.Length; ++j) m.T[j] = r.Below(n);
            var few = r.Chance(60);
            for (var j = 0; j < n; ++j) m.C[j] = few ? Palette[r.Below(Palette.Length)] : (int)r.Next();
            return m;
        }
        public static ElementData ElementOf(string k, Area a, int i)
        {
            var r = new Rng(Sim.HashOf(k + i) + 1);
            var e = new ElementData { V = Points(r, a, r.Range(1, 5)) };
            var t = new List<string> { "tile", k, "n", i.ToString() }; var s = new List<string>();
            for (var j = r.Below(4); j > 0; --j) { t.Add("k" + j); t.Add(r.Chance(20) ? "" : "v" + r.Below(9)); }
            for (var j = r.Below(3); j > 0; --j) { s.Add("s" + j); s.Add("x" + r.Below(9)); }
            e.Tags = t.ToArray(); e.Styles = s.ToArray();
            return e;
        }
        private static double[] Points(Rng r, Area a, int n)
        {
            var v = new double[n * 3];
            for (var j = 0; j < n; ++j) { v[j * 3] = a.MinLon + (a.MaxLon - a.MinLon) * r.Below(1001) / 1000; v[j * 3 + 1] = a.MinLat + (a.MaxLat - a.MinLat) * r.Below(1001) / 1000; v[j * 3 + 2] = r.Below(500) / 4.0; }
            return v;
        }
        public static readonly List<string> Missing = new List<string>();

        private static void Find(string and, object element, object error, object token)
        {
            Sim.Log("find " + and);
            Sim.Count("op.find");
            for (var i = 0; i < 3; ++i)
            {
                Sim.Yield();
                if (Cancelled(token)) return;
                Invoke(element, 0, (long)i, new[] { "query", and, "addr:housenumber", i + "a", "addr:city", "City", "n", i.ToString(), "addr:street", "Street " + i }, 10, new double[] { 1, 2, 0 }, 3, new string[0], 0);
            }
        }

        public static string QuadKey(int x, int y, int lod) { var s = ""; for (var i = lod - 1; i >= 0; --i) s += (char)('0' + ((x >> i) & 1) + 2 * ((y >> i) & 1)); return s; }
        private static bool Same(byte[] a, byte[] b) { if (a.Length != b.Length) return false; for (var i = 0; i < a.Length; ++i) if (a[i] != b[i]) return false; return true; }
        private static bool GridWhole(byte[] data, Area a)
        {
            var h = Encoding.UTF8.GetString(data).Split(' ');
            if (h.Length != (Grid + 1) * (Grid + 1)) return false;
            var k = 0;
            for (var i = 0; i <= Grid; ++i)
                for (var j = 0; j <= Grid; ++j)
                {
                    double lat = a.MinLat + i * (a.MaxLat - a.MinLat) / Grid, lon = a.MinLon + j * (a.MaxLon - a.MinLon) / Grid, v;
                    if (!double.TryParse(h[k++], NumberStyles.Float, CultureInfo.InvariantCulture, out v)) return false;
                    // the polyline has six digits, the heights change with the last one at most by one
                    if (Math.Abs(v - Net.Height(Math.Round(lat * 1e6) / 1e6, Math.Round(lon * 1e6) / 1e6)) > 1.01) return false;
                }
            return true;
        }
    }
}
