// Simulated disk and network of the managed library.
using System;
using System.Collections.Generic;
using System.ComponentModel;
using System.IO;
using System.Reflection;
using System.Text;
using Sys = System.IO;

namespace SimRt
{
    /// Files of the simulated machine: what reached a write survives the death of the process, buffers of streams do not.
    public static class Disk
    {
        public static Dictionary<string, byte[]> Files = new Dictionary<string, byte[]>();
        public static HashSet<string> Dirs = new HashSet<string>();
        /// Faults: number of the operation -> what happens ("err", "full", "kill", "torn").
        public static Dictionary<int, string> Faults = new Dictionary<int, string>();
        public static int Op;
        public static bool Healthy;
        /// Paths whose operations failed, since the list was cleared.
        public static readonly List<string> Failed = new List<string>();

        public static void Reset() { Failed.Clear(); Files = new Dictionary<string, byte[]>(); Dirs = new HashSet<string>(); Faults = new Dictionary<int, string>(); Op = 0; Healthy = false; }

        public static string Norm(string path)
        {
            if (path == null) throw new ArgumentNullException("path");
            if (path.Length == 0) throw new ArgumentException("empty path");
            var parts = new List<string>();
            foreach (var x in path.Replace('\\', '/').Split('/')) { if (x == "" || x == ".") continue; if (x == ".." && parts.Count > 0) parts.RemoveAt(parts.Count - 1); else parts.Add(x); }
            return String.Join("/", parts.ToArray());
        }
        public static string Parent(string p) { var i = p.LastIndexOf('/'); return i < 0 ? "" : p.Substring(0, i); }
        public static void MakeDir(string p) { for (p = Norm(p); p != ""; p = Parent(p)) Dirs.Add(p); }

        /// One operation on the disk; returns how the write is cut ("torn"), or null.
        public static string Touch(string what, string path, bool changes)
        {
            Sim.Alive();
            Sim.Yield();
            Sim.Log(what + " " + path);
            ++Op;
            if (Healthy) return null;
            string f;
            if (!Faults.TryGetValue(Op, out f)) return null;
            if (f == "err" || (f == "full" && changes)) Failed.Add(path);
            if (f == "err") { Sim.Count("fault.io_error"); Sim.Log("fault error"); throw new IOException("Input/output error: " + path); }
            if (f == "full") { if (!changes) return null; Sim.Count("fault.disk_full"); Sim.Log("fault full"); return "full"; }
            if (f == "kill") { Sim.Count("fault.kill"); Sim.Kill(); }
            if (f == "torn") { if (what != "write") { Sim.Count("fault.kill"); Sim.Kill(); } Sim.Count("fault.torn_write"); return "torn"; }
            return null;
        }
        internal static void NeedParent(string p) { var d = Parent(p); if (d != "" && !Dirs.Contains(d)) throw new DirectoryNotFoundException("Could not find a part of the path " + p); }
        internal static byte[] Get(string p) { byte[] b; if (!Files.TryGetValue(p, out b)) { NeedParent(p); throw new FileNotFoundException("Could not find file " + p); } return b; }
    }

    public class FileStream : Stream
    {
        private readonly string _path; private readonly bool _write; private readonly MemoryStream _buffer = new MemoryStream(); private long _at; private bool _closed;
        private const int Buffer = 4096;
        private readonly int _epoch = Sim.Epoch;
        public string Name { get { return _path; } }
        public FileStream(string path, FileMode mode) : this(path, mode, mode == FileMode.Open ? FileAccess.ReadWrite : FileAccess.Write) { }
        public FileStream(string path, FileMode mode, FileAccess access) : this(path, mode, access, FileShare.None) { }
        public FileStream(string path, FileMode mode, FileAccess access, FileShare share) : this(path, mode, access, share, Buffer) { }
        public FileStream(string path, FileMode mode, FileAccess access, FileShare share, int buffer, bool async) : this(path, mode, access, share, buffer) { }
        public FileStream(string path, FileMode mode, FileAccess access, FileShare share, int buffer, FileOptions o) : this(path, mode, access, share, buffer) { }
        public FileStream(string path, FileMode mode, FileAccess access, FileShare share, int buffer)
        {
            _path = Disk.Norm(path);
            _write = access != FileAccess.Read;
            var creates = mode != FileMode.Open;
            if (Disk.Touch(creates ? "create" : "open", _path, creates) == "full") throw new IOException("Disk full: " + _path);
            Disk.NeedParent(_path);
            var has = Disk.Files.ContainsKey(_path);
            if (mode == FileMode.CreateNew && has) throw new IOException("The file already exists: " + _path);
            if ((mode == FileMode.Open || mode == FileMode.Truncate) && !has) throw new FileNotFoundException("Could not find file " + _path);
            if (Disk.Dirs.Contains(_path)) throw new UnauthorizedAccessException("is a directory: " + _path);
            if (mode == FileMode.Create || mode == FileMode.CreateNew || mode == FileMode.Truncate || !has) Disk.Files[_path] = new byte[0];
            if (mode == FileMode.Append) _at = Disk.Files[_path].Length;
        }
        public override bool CanRead { get { return true; } }
        public override bool CanSeek { get { return true; } }
        public override bool CanWrite { get { return _write; } }
        public override long Length { get { Push(); return Disk.Get(_path).Length; } }
        public override long Position { get { return _at + _buffer.Length; } set { Push(); _at = value; } }
        public override void Flush() { Push(); }
        public override int Read(byte[] buffer, int offset, int count)
        {
            Push();
            Disk.Touch("read", _path, false);
            var b = Disk.Get(_path);
            var n = (int)Math.Max(0, Math.Min(count, b.Length - _at));
            if (n > 1 && !Disk.Healthy && Sim.Random.Chance(10)) { Sim.Count("fault.short_read"); n = 1 + Sim.Random.Below(n); }
            Array.Copy(b, _at, buffer, offset, n);
            _at += n;
            return n;
        }
        public override long Seek(long offset, SeekOrigin origin) { Push(); _at = origin == SeekOrigin.Begin ? offset : origin == SeekOrigin.Current ? _at + offset : Disk.Get(_path).Length + offset; return _at; }
        public override void SetLength(long value) { Push(); var b = Disk.Get(_path); Array.Resize(ref b, (int)value); Disk.Files[_path] = b; }
        public override void Write(byte[] buffer, int offset, int count)
        {
            if (!_write) throw new NotSupportedException("not writable");
            if (_closed) throw new ObjectDisposedException("stream");
            // what does not fit into the buffer goes to the disk in pieces
            while (count > 0)
            {
                var n = (int)Math.Min(count, Buffer - _buffer.Length);
                _buffer.Write(buffer, offset, n);
                offset += n; count -= n;
                if (_buffer.Length >= Buffer) Push();
            }
        }
        private void Push()
        {
            if (_buffer.Length == 0) return;
            var data = _buffer.ToArray();
            _buffer.SetLength(0);
            var cut = Disk.Touch("write", _path, true);
            var n = data.Length;
            if (cut != null) n = Sim.Random.Below(data.Length);
            var old = Disk.Get(_path);
            var now = new byte[Math.Max(old.Length, _at + n)];
            Array.Copy(old, now, old.Length);
            Array.Copy(data, 0, now, _at, n);
            Disk.Files[_path] = now;
            _at += n;
            if (cut == "torn") { Sim.Log("torn " + n); Sim.Kill(); }
            if (cut == "full") throw new IOException("Disk full: " + _path);
        }
        protected override void Dispose(bool disposing)
        {
            if (_closed || !disposing) return;
            _closed = true;
            if (!Sim.InSim || _epoch != Sim.Epoch) return;
            Push();
            Sim.Log("close " + _path);
        }
    }

    public class StreamReader : Sys.StreamReader
    {
        public StreamReader(string path) : base(new FileStream(path, FileMode.Open, FileAccess.Read)) { }
        public StreamReader(string path, Encoding e) : base(new FileStream(path, FileMode.Open, FileAccess.Read), e) { }
        public StreamReader(Stream s) : base(s) { }
        public StreamReader(Stream s, Encoding e) : base(s, e) { }
    }
    public class StreamWriter : Sys.StreamWriter
    {
        public StreamWriter(string path) : base(new FileStream(path, FileMode.Create)) { }
        public StreamWriter(string path, bool append) : base(new FileStream(path, append ? FileMode.Append : FileMode.Create)) { }
        public StreamWriter(Stream s) : base(s) { }
        public StreamWriter(Stream s, Encoding e) : base(s, e) { }
    }

    public static class File
    {
        public static bool Exists(string path) { if (path == null || path == "") return false; path = Disk.Norm(path); try { Disk.Touch("exists", path, false); } catch (IOException) { return false; } return Disk.Files.ContainsKey(path); }
        public static FileStream Open(string path, FileMode m) { return new FileStream(path, m); }
        public static FileStream Open(string path, FileMode m, FileAccess a) { return new FileStream(path, m, a); }
        public static FileStream Open(string path, FileMode m, FileAccess a, FileShare s) { return new FileStream(path, m, a, s); }
        public static FileStream OpenRead(string path) { return new FileStream(path, FileMode.Open, FileAccess.Read); }
        public static FileStream OpenWrite(string path) { return new FileStream(path, FileMode.OpenOrCreate, FileAccess.Write); }
        public static FileStream Create(string path) { return new FileStream(path, FileMode.Create); }
        public static byte[] ReadAllBytes(string path)
        {
            using (var f = OpenRead(path))
            {
                var m = new MemoryStream(); var b = new byte[4096]; int n;
                while ((n = f.Read(b, 0, b.Length)) > 0) m.Write(b, 0, n);
                return m.ToArray();
            }
        }
        public static string ReadAllText(string path) { using (var r = new StreamReader(path)) return r.ReadToEnd(); }
        public static string ReadAllText(string path, Encoding e) { using (var r = new StreamReader(path, e)) return r.ReadToEnd(); }
        public static string[] ReadAllLines(string path) { return ReadAllText(path).Replace("\r", "").Split('\n'); }
        public static void WriteAllBytes(string path, byte[] b) { using (var f = new FileStream(path, FileMode.Create)) f.Write(b, 0, b.Length); }
        public static void WriteAllText(string path, string t) { WriteAllBytes(path, new UTF8Encoding(false).GetBytes(t)); }
        public static void WriteAllText(string path, string t, Encoding e) { WriteAllBytes(path, e.GetBytes(t)); }
        public static void AppendAllText(string path, string t) { var b = new UTF8Encoding(false).GetBytes(t); using (var f = new FileStream(path, FileMode.Append)) f.Write(b, 0, b.Length); }
        public static void Delete(string path) { path = Disk.Norm(path); Disk.Touch("delete", path, false); Disk.NeedParent(path); Disk.Files.Remove(path); }
        public static void Move(string a, string b)
        {
            a = Disk.Norm(a); b = Disk.Norm(b);
            Disk.Touch("move " + a, b, false);
            var x = Disk.Get(a); Disk.NeedParent(b);
            if (Disk.Files.ContainsKey(b)) throw new IOException("Cannot create a file when that file already exists: " + b);
            Disk.Files.Remove(a); Disk.Files[b] = x;
        }
        public static void Replace(string a, string b, string backup)
        {
            a = Disk.Norm(a); b = Disk.Norm(b);
            Disk.Touch("replace " + a, b, false);
            var x = Disk.Get(a); var y = Disk.Get(b);
            if (backup != null) Disk.Files[Disk.Norm(backup)] = y;
            Disk.Files.Remove(a); Disk.Files[b] = x;
        }
        public static void Copy(string a, string b) { Copy(a, b, false); }
        public static void Copy(string a, string b, bool over)
        {
            var data = ReadAllBytes(a);
            if (!over && Disk.Files.ContainsKey(Disk.Norm(b))) throw new IOException("The file already exists: " + b);
            WriteAllBytes(b, data);
        }
        public static FileAttributes GetAttributes(string path) { return FileAttributes.Normal; }
        public static DateTime GetLastWriteTimeUtc(string path) { return new DateTime(Sim.Now); }
    }

    public static class Directory
    {
        public static bool Exists(string path) { path = Disk.Norm(path); return Disk.Dirs.Contains(path); }
        public static DirectoryInfo CreateDirectory(string path)
        {
            if (Disk.Touch("mkdir", Disk.Norm(path), true) == "full") throw new IOException("Disk full: " + path);
            Disk.MakeDir(path);
            return null;
        }
        public static string[] GetFiles(string path) { return GetFiles(path, "*"); }
        public static string[] GetFiles(string path, string pattern)
        {
            path = Disk.Norm(path); Disk.Touch("list", path, false);
            if (!Disk.Dirs.Contains(path)) throw new DirectoryNotFoundException(path);
            var r = new List<string>();
            foreach (var f in Disk.Files.Keys) if (Disk.Parent(f) == path && Like(f.Substring(path.Length + 1), pattern)) r.Add(f);
            r.Sort(StringComparer.Ordinal);
            return r.ToArray();
        }
        public static string[] GetDirectories(string path) { return GetDirectories(path, "*"); }
        public static string[] GetDirectories(string path, string pattern)
        {
            path = Disk.Norm(path); Disk.Touch("list", path, false);
            var r = new List<string>();
            foreach (var f in Disk.Dirs) if (Disk.Parent(f) == path && f != path && Like(f.Substring(path.Length + 1), pattern)) r.Add(f);
            r.Sort(StringComparer.Ordinal);
            return r.ToArray();
        }
        public static void Delete(string path) { Delete(path, false); }
        public static void Delete(string path, bool all) { path = Disk.Norm(path); Disk.Touch("rmdir", path, false); Disk.Dirs.Remove(path); }
        private static bool Like(string name, string pattern) { return System.Text.RegularExpressions.Regex.IsMatch(name, "^" + System.Text.RegularExpressions.Regex.Escape(pattern).Replace("\\*", ".*").Replace("\\?", ".") + "$"); }
    }

    /// What the simulated servers answer.
    public class Answer
    {
        public byte[] Bytes; public Exception Error; public long DelayMs; public bool Never;
    }

    public static class Servers
    {
        public static Func<string, Answer> Handler;
        internal static Answer Ask(string url) { Sim.Alive(); Sim.Yield(); Sim.Log("get " + url); return Handler(url); }
    }

    /// Stands for System.Net.WebClient: completion is raised on a thread of the pool.
    public class WebClient : IDisposable
    {
        public event System.Net.DownloadStringCompletedEventHandler DownloadStringCompleted;
        public event System.Net.DownloadDataCompletedEventHandler DownloadDataCompleted;
        public System.Net.WebHeaderCollection Headers { get { return _headers; } set { _headers = value; } }
        private System.Net.WebHeaderCollection _headers = new System.Net.WebHeaderCollection();
        public Encoding Encoding { get { return Encoding.UTF8; } set { } }
        private bool _busy;

        private static object Args(Type t, object result, Exception error)
        {
            foreach (var c in t.GetConstructors(BindingFlags.Instance | BindingFlags.NonPublic | BindingFlags.Public))
                if (c.GetParameters().Length == 4) return c.Invoke(new[] { result, error, (object)false, null });
            throw new InvalidOperationException("harness: no constructor of " + t);
        }
        private void Later(Uri uri, Action<Answer> done)
        {
            if (_busy) throw new NotSupportedException("WebClient does not support concurrent I/O operations.");
            _busy = true;
            var a = Servers.Ask(uri.OriginalString);
            if (a.Never) return;
            Action go = () => { Sim.Log("answer " + (a.Error != null ? "error " : "") + uri.OriginalString.Length); _busy = false; done(a); };
            if (a.DelayMs <= 0) Sim.Go("net", go); else Sim.After(a.DelayMs, go);
        }
        public void DownloadDataAsync(Uri uri) { Later(uri, a => { var h = DownloadDataCompleted; if (h != null) h(this, (System.Net.DownloadDataCompletedEventArgs)Args(typeof(System.Net.DownloadDataCompletedEventArgs), a.Error == null ? a.Bytes : null, a.Error)); else Sim.Count("net.lost"); }); }
        public void DownloadStringAsync(Uri uri) { Later(uri, a => { var h = DownloadStringCompleted; if (h != null) h(this, (System.Net.DownloadStringCompletedEventArgs)Args(typeof(System.Net.DownloadStringCompletedEventArgs), a.Error == null ? Encoding.UTF8.GetString(a.Bytes) : null, a.Error)); else Sim.Count("net.lost"); }); }
        public byte[] DownloadData(Uri uri) { return Now(uri.OriginalString); }
        public byte[] DownloadData(string uri) { return Now(uri); }
        public string DownloadString(Uri uri) { return Encoding.UTF8.GetString(Now(uri.OriginalString)); }
        public string DownloadString(string uri) { return Encoding.UTF8.GetString(Now(uri)); }
        private static byte[] Now(string url)
        {
            var a = Servers.Ask(url);
            if (a.Never) Thread.Sleep(100000);
            else if (a.DelayMs > 0) Thread.Sleep((int)a.DelayMs);
            if (a.Error != null || a.Never) throw a.Error ?? new System.Net.WebException("timeout");
            return a.Bytes;
        }
        public void CancelAsync() { }
        public void Dispose() { }
    }
}
