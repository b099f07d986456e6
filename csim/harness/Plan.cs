using System;
using System.Collections.Generic;
using System.Globalization;
using System.Text;
using SimRt;

namespace Harness
{
    /// One execution as text: scenario, seed, parameters, operations, faults, preemptions.
    public class Plan
    {
        public string Scenario; public ulong Seed;
        public readonly Dictionary<string, long> Par = new Dictionary<string, long>();
        public readonly List<string[]> Ops = new List<string[]>();
        public readonly List<string[]> Faults = new List<string[]>();
        public readonly Dictionary<int, int> Pre = new Dictionary<int, int>();
        public bool Scripted;

        public long P(string k, long def) { long v; return Par.TryGetValue(k, out v) ? v : def; }
        public void Op(params object[] x) { Ops.Add(Words(x)); }
        public void Fault(params object[] x) { Faults.Add(Words(x)); }
        private static string[] Words(object[] x) { var r = new string[x.Length]; for (var i = 0; i < x.Length; ++i) r[i] = Convert.ToString(x[i], CultureInfo.InvariantCulture); return r; }

        public static Plan Parse(string text)
        {
            var p = new Plan();
            foreach (var line in text.Split('\n'))
            {
                var w = line.Trim().Split(new[] { ' ' }, StringSplitOptions.RemoveEmptyEntries);
                if (w.Length == 0 || w[0].StartsWith("#")) continue;
                var rest = new string[w.Length - 1];
                Array.Copy(w, 1, rest, 0, rest.Length);
                switch (w[0])
                {
                    case "scenario": p.Scenario = w[1]; break;
                    case "seed": p.Seed = ulong.Parse(w[1]); break;
                    case "par": p.Par[w[1]] = long.Parse(w[2]); break;
                    case "scripted": p.Scripted = true; break;
                    case "op": p.Ops.Add(rest); break;
                    case "fault": p.Faults.Add(rest); break;
                    case "pre": p.Pre[int.Parse(w[1])] = int.Parse(w[2]); break;
                    default: throw new InvalidOperationException("bad plan line: " + line);
                }
            }
            return p;
        }

        public string Text(bool scripted, List<int[]> made)
        {
            var sb = new StringBuilder();
            sb.Append("scenario ").Append(Scenario).Append("\nseed ").Append(Seed).Append('\n');
            foreach (var x in Par) sb.Append("par ").Append(x.Key).Append(' ').Append(x.Value).Append('\n');
            if (scripted) sb.Append("scripted\n");
            foreach (var x in Ops) sb.Append("op ").Append(String.Join(" ", x)).Append('\n');
            foreach (var x in Faults) sb.Append("fault ").Append(String.Join(" ", x)).Append('\n');
            if (scripted && made != null) foreach (var x in made) sb.Append("pre ").Append(x[0]).Append(' ').Append(x[1]).Append('\n');
            return sb.ToString();
        }
    }

    public static class Program
    {
        private static string Quote(string s)
        {
            var sb = new StringBuilder("\"");
            foreach (var c in s ?? "")
                if (c == '"' || c == '\\') sb.Append('\\').Append(c); else if (c == '\n') sb.Append("\\n"); else if (c < 32 || c > 126) sb.AppendFormat("\\u{0:x4}", (int)c); else sb.Append(c);
            return sb.Append('"').ToString();
        }

        private static string Execute(Plan p, bool withPlan)
        {
            string status = "ok", cls = "", msg = "";
            // The first run of a process would differ from later ones in nothing, as all static state is set back.
            Statics.Reset();
            Disk.Reset();
            Sim.OnUncaught = null;
            Sim.Judged = Scenarios.Judged((int)p.P("judge", 0));
            Sim.Begin(p.Seed, (int)p.P("preempt", 20), p.Scripted ? p.Pre : null);
            try { Scenarios.Run(p); }
            catch (Dead) { if (Sim.FailClass == null) { status = "error"; msg = "harness: death of the process was not expected"; } }
            catch (Exception e)
            {
                while (e is System.Reflection.TargetInvocationException && e.InnerException != null) e = e.InnerException;
                if ((e.StackTrace ?? "").Contains("UtyMap.Unity.")) Sim.Fail("thrown", "the library threw " + e.GetType().Name + ": " + e.Message);
                else { status = "error"; msg = e.ToString(); }
            }
            Sim.Count("time.s", (Sim.Now - new DateTime(2017, 1, 1).Ticks) / 10000000);
            var hash = Sim.Hash; var fp = Sim.Fp;
            if (Sim.FailClass != null) { status = "violation"; cls = Sim.FailClass; msg = Sim.FailText; }
            Sim.Drain();
            var sb = new StringBuilder();
            sb.Append("{\"status\":").Append(Quote(status)).Append(",\"cls\":").Append(Quote(cls)).Append(",\"msg\":").Append(Quote(msg)).Append(",\"seed\":").Append(p.Seed)
              .Append(",\"hash\":\"").Append(hash.ToString("x16")).Append("\",\"fp\":\"").Append(fp.ToString("x16")).Append("\",\"events\":").Append(Sim.Events).Append(",\"switches\":").Append(Sim.Switches).Append(",\"counters\":{");
            var first = true;
            foreach (var c in Sim.Counters) { if (!first) sb.Append(','); first = false; sb.Append(Quote(c.Key)).Append(':').Append(c.Value); }
            sb.Append("},\"cover\":[");
            for (var i = 0; i < Sim.Cover.Count; ++i) { if (i > 0) sb.Append(','); sb.Append('"').Append(Sim.Cover[i].ToString("x")).Append('"'); }
            sb.Append(']');
            if (withPlan && status != "ok") sb.Append(",\"plan\":").Append(Quote(p.Scripted ? p.Text(true, Pairs(p.Pre)) : p.Text(true, Sim.Made)));
            sb.Append('}');
            return sb.ToString();
        }

        private static List<int[]> Pairs(Dictionary<int, int> d) { var r = new List<int[]>(); foreach (var x in d) r.Add(new[] { x.Key, x.Value }); return r; }

        private static Plan Generate(string scenario, ulong seed, Dictionary<string, long> over)
        {
            var p = new Plan { Scenario = scenario, Seed = seed };
            foreach (var o in over) p.Par[o.Key] = o.Value;
            Scenarios.Generate(p, new Rng(seed * 77 + Sim.HashOf(scenario)));
            return p;
        }

        public static int Main(string[] a)
        {
            System.Threading.Thread.CurrentThread.CurrentCulture = CultureInfo.InvariantCulture;
            var over = new Dictionary<string, long>();
            foreach (var x in a) { var i = x.IndexOf('='); if (i > 0) over[x.Substring(0, i)] = long.Parse(x.Substring(i + 1)); }
            var o = new System.IO.StreamWriter(Console.OpenStandardOutput()) { AutoFlush = true };
            if (a[0] == "range")
            {
                ulong first = ulong.Parse(a[2]), step = ulong.Parse(a[3]);
                int count = int.Parse(a[4]), budget = int.Parse(a[5]);
                var t0 = Environment.TickCount;
                for (var i = 0; i < count; ++i)
                {
                    if (budget > 0 && Environment.TickCount - t0 > budget * 1000) break;
                    o.WriteLine(Execute(Generate(a[1], first + (ulong)i * step, over), true));
                }
                o.Flush();
                Environment.Exit(0);
            }
            if (a[0] == "show")
            {
                Sim.LogText = new StringBuilder();
                var p = a[1] == "-" ? Plan.Parse(Console.In.ReadToEnd()) : Generate(a[1], ulong.Parse(a[2]), over);
                var r = Execute(p, false);
                o.WriteLine(p.Text(false, null));
                o.WriteLine(Sim.LogText.ToString());
                o.WriteLine(r);
                o.Flush();
                Environment.Exit(0);
            }
            if (a[0] == "batch")
            {
                var sb = new StringBuilder();
                string l;
                while ((l = Console.In.ReadLine()) != null)
                {
                    if (l == "---") { if (sb.ToString().Trim() != "") o.WriteLine(Execute(Plan.Parse(sb.ToString()), true)); sb = new StringBuilder(); }
                    else sb.Append(l).Append('\n');
                }
                o.Flush();
                Environment.Exit(0);
            }
            return 2;
        }
    }

    /// Sets the static state of the library back, as a new process would have it.
    public static class Statics
    {
        private static List<Type> _types;
        public static void Reset()
        {
            if (_types == null)
            {
                _types = new List<Type>();
                foreach (var asm in new[] { typeof(UtyRx.Unit).Assembly, typeof(UtyMap.Unity.Tile).Assembly })
                    foreach (var t in asm.GetTypes())
                        if (!t.ContainsGenericParameters) _types.Add(t);
            }
            foreach (var t in _types)
                foreach (var f in t.GetFields(System.Reflection.BindingFlags.Static | System.Reflection.BindingFlags.Public | System.Reflection.BindingFlags.NonPublic | System.Reflection.BindingFlags.DeclaredOnly))
                    if (!f.IsLiteral && !f.IsInitOnly) f.SetValue(null, f.FieldType.IsValueType ? Activator.CreateInstance(f.FieldType) : null);
            // twice: an initializer may use what another one makes
            for (var k = 0; k < 2; ++k)
                foreach (var t in _types)
                    if (t.TypeInitializer != null) t.TypeInitializer.Invoke(null, null);
        }
    }
}
