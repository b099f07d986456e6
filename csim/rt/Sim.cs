// Runtime of the simulator for the managed library: one thread runs at a time, a seeded scheduler decides which one.
// Everything here is what the woven code calls instead of the framework (see Weave.cs).
using System;
using System.Collections;
using System.Collections.Generic;
using System.Text;
using RT = System.Threading;

namespace SimRt
{
    /// The simulated process was killed: unwinds whatever still runs of it.
    public class Dead : Exception { public Dead() : base("process was killed") { } }

    public class Rng
    {
        private ulong _s;
        public Rng(ulong seed) { _s = seed * 0x9E3779B97F4A7C15UL + 0x1234567UL; Next(); Next(); }
        public ulong Next() { _s += 0x9E3779B97F4A7C15UL; var z = _s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9UL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBUL; return z ^ (z >> 31); }
        public int Below(int n) { return n <= 1 ? 0 : (int)(Next() % (ulong)n); }
        public int Range(int a, int b) { return a + Below(b - a + 1); }
        public bool Chance(int percent) { return Below(100) < percent; }
    }

    /// Vector clock.
    internal class Clock
    {
        public readonly List<int> V = new List<int>();
        public int Get(int i) { return i < V.Count ? V[i] : 0; }
        public void Set(int i, int x) { while (V.Count <= i) V.Add(0); V[i] = x; }
        public void Join(Clock o) { if (o == null) return; for (var i = 0; i < o.V.Count; ++i) if (o.V[i] > Get(i)) Set(i, o.V[i]); }
        public Clock Copy() { var c = new Clock(); c.V.AddRange(V); return c; }
    }

    internal class SimThread
    {
        public int Id, Epoch;
        public Action Body;
        public bool Ready = true, Done, Idle;
        public object On;             // what it waits for
        public Clock Exited;
        public string Name;
        public readonly Clock Vc = new Clock();
        public readonly RT.AutoResetEvent Ev = new RT.AutoResetEvent(false);
        public void Release(ref Clock c) { if (c == null) c = new Clock(); c.Join(Vc); Vc.Set(Id, Vc.Get(Id) + 1); }
    }

    /// Worker of the operating system which runs simulated threads, one after another.
    internal class Worker
    {
        private static readonly Stack<Worker> Pool = new Stack<Worker>();
        private readonly RT.AutoResetEvent _go = new RT.AutoResetEvent(false);
        private SimThread _t;

        public static void Start(SimThread t)
        {
            Worker w = null;
            lock (Pool) if (Pool.Count > 0) w = Pool.Pop();
            if (w == null) { w = new Worker(); var th = new RT.Thread(w.Loop, 1 << 20) { IsBackground = true }; th.Start(); }
            w._t = t;
            w._go.Set();
        }

        private void Loop()
        {
            for (;;)
            {
                _go.WaitOne();
                var t = _t;
                t.Ev.WaitOne();
                Sim.Enter(t);
                var reuse = false;
                try { if (t.Epoch == Sim.Epoch) t.Body(); reuse = t.Epoch == Sim.Epoch; }
                catch (Dead) { }
                catch (Exception e) { if (t.Epoch == Sim.Epoch) Sim.Uncaught(t, e); }
                _t = null;
                if (reuse) lock (Pool) Pool.Push(this);
                Sim.Exit(t);
                if (!reuse) return;
            }
        }
    }

    public static class Sim
    {
        [ThreadStatic] private static SimThread _self;
        private static List<SimThread> _threads = new List<SimThread>();
        private static SimThread _main;
        private static int _nextId, _yields, _preemptPermille;
        private static readonly RT.AutoResetEvent Drained = new RT.AutoResetEvent(false);
        private static bool _draining;
        public static int Epoch;
        public static bool Killed;
        public static Rng Random, Sched;
        public static long Now;                    // ticks of 100 ns
        public static long Events, Switches;
        private static ulong _hash, _fp;
        public static readonly SortedDictionary<string, long> Counters = new SortedDictionary<string, long>();
        public static readonly List<ulong> Cover = new List<ulong>();
        public static string FailClass, FailText;
        private static List<SimTimer> _timers = new List<SimTimer>();
        private static long _timerSeq;
        /// Preemptions which were made: (yield, thread id); a plan with a list of them follows it instead of the generator.
        public static readonly List<int[]> Made = new List<int[]>();
        private static Dictionary<int, int> _script;
        public static StringBuilder LogText;
        public static long MaxYields = 3000000;

        public static void Count(string name) { Count(name, 1); }
        public static void Count(string name, long n) { long v; Counters.TryGetValue(name, out v); Counters[name] = v + n; }

        private static ulong Mix(ulong h, string s) { for (var i = 0; i < s.Length; ++i) h = (h ^ s[i]) * 0x100000001B3UL; return h ^ (h >> 29); }
        public static ulong HashOf(string s) { return Mix(0xcbf29ce484222325UL, s); }
        public static void Log(string what)
        {
            ++Events; _lastEvent = Now;
            _hash = Mix(_hash, what) * 31 + (ulong)(_self == null ? 0 : _self.Id);
            if (LogText != null) LogText.Append(Now / 10000).Append("ms t").Append(_self == null ? 0 : _self.Id).Append(' ').Append(what).Append('\n');
        }
        public static ulong Hash { get { return _hash; } }
        public static ulong Fp { get { return _fp; } }

        /// Classes of violations which count in this run; null: all.
        public static List<string> Judged;
        public static void Fail(string cls, string text)
        {
            if (FailClass != null || (Judged != null && !Judged.Contains(cls))) return;
            FailClass = cls; FailText = text;
            Log("FAIL " + cls + " " + text);
        }

        internal static void Uncaught(SimThread t, Exception e)
        {
            while (e is System.Reflection.TargetInvocationException && e.InnerException != null) e = e.InnerException;
            if (OnUncaught != null && OnUncaught(e)) return;
            Fail("uncaught", "an exception left a thread of the pool, which ends the process: " + e.GetType().Name + ": " + e.Message + (LogText != null ? e.StackTrace : ""));
        }
        public static Func<Exception, bool> OnUncaught;

        // -- runs

        public static void Begin(ulong seed, int preemptPermille, Dictionary<int, int> script)
        {
            Random = new Rng(seed); Sched = new Rng(seed ^ 0x5555UL);
            _preemptPermille = preemptPermille; _script = script;
            Epoch++; Killed = false;
            _threads = new List<SimThread>(); _timers = new List<SimTimer>();
            _nextId = 0; _yields = 0; Now = new DateTime(2017, 1, 1).Ticks; Events = 0; Switches = 0; _hash = 1; _fp = 1; _timerSeq = 0;
            Counters.Clear(); Cover.Clear(); Made.Clear(); FailClass = null; FailText = null;
            Races.Reset(); SimLocks.Reset(); Interlocked.ResetState();
            _horizon = 0; _early = 0; _quiet = 0; _lastEvent = Now;
            _main = new SimThread { Id = _nextId++, Epoch = Epoch, Name = "main" };
            _threads.Add(_main);
            _self = _main;
            _main.Vc.Set(0, 1);
        }

        /// Ends all threads but the main one (end of a run or of a process).
        public static void Drain()
        {
            Epoch++;
            _main.Epoch = Epoch;
            _timers.Clear();
            SimLocks.Reset();
            _draining = true;
            foreach (var t in _threads.ToArray())
            {
                if (t == _main || t.Done) continue;
                t.Ev.Set();
                Drained.WaitOne();
            }
            _draining = false;
            _threads.Clear(); _threads.Add(_main);
            _main.Ready = true; _main.Idle = false; _main.On = null;
            Killed = false;
        }

        /// Culture of the threads of the simulated process.
        public static System.Globalization.CultureInfo Culture = System.Globalization.CultureInfo.InvariantCulture;
        internal static void Enter(SimThread t) { _self = t; RT.Thread.CurrentThread.CurrentCulture = Culture; }

        internal static void Exit(SimThread t)
        {
            t.Done = true;
            if (t.Epoch != Epoch) { if (_draining) Drained.Set(); else _main.Ev.Set(); return; }
            t.Release(ref t.Exited);
            foreach (var x in _threads) if (x.On == t) { x.Ready = true; x.On = null; x.Vc.Join(t.Exited); }
            _threads.Remove(t);
            if (Killed) { _main.Ev.Set(); return; }
            var to = Pick(null);
            to.Ev.Set();
        }

        internal static SimThread Spawn(string name, Action body)
        {
            var t = new SimThread { Id = _nextId++, Epoch = Epoch, Body = body, Name = name };
            if (_self != null) { Clock c = null; _self.Release(ref c); t.Vc.Join(c); }
            t.Vc.Set(t.Id, 1);
            _threads.Add(t);
            Worker.Start(t);
            return t;
        }

        /// Runs as thread of its own (for plans which want concurrent callers).
        public static void Go(string name, Action body) { Alive(); Spawn(name, body); Yield(); }

        internal static SimThread Self { get { return _self; } }
        public static bool InSim { get { return _self != null && _self.Epoch == Epoch && !Killed; } }
        public static void Alive() { if (_self == null || _self.Epoch != Epoch || Killed) throw new Dead(); }

        /// Next thread when the current one cannot or need not go on: script, else seeded choice; main only when it is not idle or nothing else can run.
        private static SimThread Pick(SimThread prefer)
        {
            for (;;)
            {
                var ready = new List<SimThread>();
                foreach (var t in _threads) if (t.Ready && !t.Idle) ready.Add(t);
                if (ready.Count == 0)
                {
                    if (!_main.Idle) _horizon = Math.Max(_horizon, Now + 36000000000L / 60);
                    if (FailClass == null && FireTimer()) continue;
                    if (_main.Idle) return _main;
                }
                if (ready.Count == 0) { Judged = null; Fail("deadlock", "no thread can go on: " + Describe()); Killed = true; return _main; }
                int want;
                ++_yields;
                if (_script != null) { if (_script.TryGetValue(_yields, out want)) foreach (var t in ready) if (t.Id == want) return t; return prefer != null && ready.Contains(prefer) ? prefer : ready[0]; }
                var c = ready[Sched.Below(ready.Count)];
                if (c != ready[0]) Made.Add(new[] { _yields, c.Id });
                return c;
            }
        }

        public static string Describe()
        {
            var sb = new StringBuilder();
            foreach (var t in _threads) sb.Append(t.Name).Append(t.Id).Append(t.Ready ? " ready" : " waits for " + (t.On == null ? "?" : t.On.GetType().Name)).Append("; ");
            return sb.ToString();
        }

        private static void SwitchTo(SimThread to)
        {
            var me = _self;
            if (to == me) return;
            ++Switches;
            _fp = (_fp ^ (ulong)(_yields * 64 + to.Id)) * 0x100000001B3UL;
            to.Ev.Set();
            me.Ev.WaitOne();
            if (me.Epoch != Epoch || Killed) throw new Dead();
        }

        /// A point where another thread may go on.
        public static void Yield()
        {
            var me = _self;
            if (me == null) return;
            if (me.Epoch != Epoch || Killed) throw new Dead();
            if (++_yields > MaxYields) { Judged = null; Fail("hang", "no end after " + MaxYields + " steps: " + Describe()); Kill(); }
            if (_threads.Count < 2 && _timers.Count == 0) return;
            SimThread to = null;
            if (_script != null)
            {
                int want;
                if (!_script.TryGetValue(_yields, out want)) return;
                if (want == -1) { if (FireEarly()) to = _threads[_threads.Count - 1]; }
                else foreach (var t in _threads) if (t.Id == want && t.Ready && !t.Idle) to = t;
            }
            else
            {
                if (_preemptPermille == 0 || Sched.Below(1000) >= _preemptPermille) return;
                if (Sched.Below(1000) < 15 && FireEarly())
                {
                    Made.Add(new[] { _yields, -1 });
                    Count("sched.slow");
                    SwitchTo(_threads[_threads.Count - 1]);
                    return;
                }
                var ready = 0;
                foreach (var t in _threads) if (t != me && t.Ready && !t.Idle) ++ready;
                if (ready == 0) return;
                var k = Sched.Below(ready);
                foreach (var t in _threads) if (t != me && t.Ready && !t.Idle && k-- == 0) { to = t; break; }
                Made.Add(new[] { _yields, to.Id });
            }
            if (to == null || to == me) return;
            Count("sched.preempt");
            SwitchTo(to);
        }

        /// The current thread waits until somebody calls Wake with this object.
        internal static void Block(object on)
        {
            var me = _self;
            me.Ready = false; me.On = on;
            Count("sched.contended");
            SwitchTo(Pick(null));
        }

        internal static void Wake(object on)
        {
            foreach (var t in _threads) if (t.On == on) { t.Ready = true; t.On = null; }
        }

        /// Main: lets everything else run until nothing is left to do, at most for the given simulated time; all: no thread may be left waiting then.
        public static bool Settle(long ms, bool all, long quietMs = 0)
        {
            Alive();
            var end = Now + ms * 10000;
            _horizon = end; _early = Now + Math.Min(ms, 10000) * 10000;
            _quiet = quietMs * 10000; _lastEvent = Now;
            _main.Idle = true;
            try { SwitchTo(Pick(null)); } finally { _main.Idle = false; }
            var others = 0;
            foreach (var t in _threads) if (t != _main) ++others;
            if (all && others > 0 && FailClass == null) Fail("deadlock", "threads wait forever: " + Describe());
            if (Now < end) Now = end;
            return others == 0;
        }
        private static long _horizon, _early, _quiet, _lastEvent;

        /// The current thread is so slow that time goes on meanwhile.
        private static bool FireEarly()
        {
            var keep = _horizon;
            _horizon = _main.Idle ? Math.Min(_horizon, _early) : Now + 50000000L;
            var fired = FailClass == null && FireTimer();
            _horizon = keep;
            return fired;
        }

        private static bool FireTimer()
        {
            SimTimer best = null;
            foreach (var t in _timers) if (t.Due <= _horizon && (best == null || t.Due < best.Due || (t.Due == best.Due && t.Seq < best.Seq))) best = t;
            if (best == null) return false;
            if (best.Period > 0 && _quiet > 0 && _main.Idle && best.Due - _lastEvent > _quiet)
            {
                // only the clock ticks
                var alone = true;
                foreach (var t in _timers) if (t.Period <= 0 && t.Due <= _horizon) alone = false;
                if (alone) return false;
            }
            if (best.Due > Now) Now = best.Due;
            _timers.Remove(best);
            if (best.Period > 0) { best.Due = Now + best.Period; best.Seq = _timerSeq++; _timers.Add(best); }
            var body = best.Body;
            var c = best.Created;
            var th = Spawn("timer", body);
            th.Vc.Join(c);
            return true;
        }

        internal static void AddTimer(SimTimer t) { t.Seq = _timerSeq++; if (_self != null) _self.Release(ref t.Created); _timers.Add(t); }
        internal static void RemoveTimer(SimTimer t) { _timers.Remove(t); }

        /// Runs the action after a simulated delay on a thread of the pool.
        public static void After(long ms, Action body) { AddTimer(new SimTimer(body, Now + ms * 10000, 0)); }

        /// The process dies here.
        public static void Kill()
        {
            Killed = true;
            Log("killed");
            if (_self != _main) { throw new Dead(); }
            throw new Dead();
        }
    }

    internal class SimTimer
    {
        public Action Body; public long Due, Period, Seq; public Clock Created;
        public SimTimer(Action body, long due, long period) { Body = body; Due = due; Period = period; }
    }

    // -- locks

    internal static class SimLocks
    {
        private class Mon { public SimThread Owner; public int Depth; public Clock Vc; public int Pulses; public List<object> Waiters = new List<object>(); }
        private class Cmp : IEqualityComparer<object> { bool IEqualityComparer<object>.Equals(object a, object b) { return ReferenceEquals(a, b); } public int GetHashCode(object o) { return System.Runtime.CompilerServices.RuntimeHelpers.GetHashCode(o); } }
        private static Dictionary<object, Mon> _mons = new Dictionary<object, Mon>(new Cmp());
        public static void Reset() { _mons = new Dictionary<object, Mon>(new Cmp()); }
        private static Mon Get(object o) { Mon m; if (!_mons.TryGetValue(o, out m)) _mons[o] = m = new Mon(); return m; }

        public static void Enter(object o)
        {
            Sim.Alive();
            if (o == null) throw new ArgumentNullException("obj");
            Sim.Yield();
            var m = Get(o);
            while (m.Owner != null && m.Owner != Sim.Self) Sim.Block(m);
            m.Owner = Sim.Self; ++m.Depth;
            Sim.Self.Vc.Join(m.Vc);
        }
        public static bool TryEnter(object o)
        {
            Sim.Alive(); Sim.Yield();
            var m = Get(o);
            if (m.Owner != null && m.Owner != Sim.Self) return false;
            m.Owner = Sim.Self; ++m.Depth; Sim.Self.Vc.Join(m.Vc);
            return true;
        }
        public static void Exit(object o)
        {
            if (!Sim.InSim) return;
            var m = Get(o);
            if (m.Owner != Sim.Self) throw new RT.SynchronizationLockException();
            if (--m.Depth == 0) { Sim.Self.Release(ref m.Vc); m.Owner = null; Sim.Wake(m); Sim.Yield(); }
        }
        public static bool Wait(object o)
        {
            Sim.Alive();
            var m = Get(o);
            if (m.Owner != Sim.Self) throw new RT.SynchronizationLockException();
            var d = m.Depth; m.Depth = 0; Sim.Self.Release(ref m.Vc); m.Owner = null; Sim.Wake(m);
            var token = new object(); m.Waiters.Add(token);
            Sim.Block(token);
            while (m.Owner != null) Sim.Block(m);
            m.Owner = Sim.Self; m.Depth = d; Sim.Self.Vc.Join(m.Vc);
            return true;
        }
        public static void Pulse(object o, bool all)
        {
            Sim.Alive();
            var m = Get(o);
            while (m.Waiters.Count > 0) { var t = m.Waiters[0]; m.Waiters.RemoveAt(0); Sim.Wake(t); if (!all) break; }
        }
    }

    public static class Monitor
    {
        public static void Enter(object o) { SimLocks.Enter(o); }
        public static void Enter(object o, ref bool taken) { SimLocks.Enter(o); taken = true; }
        public static bool TryEnter(object o) { return SimLocks.TryEnter(o); }
        public static bool TryEnter(object o, int ms) { SimLocks.Enter(o); return true; }
        public static bool TryEnter(object o, TimeSpan t) { SimLocks.Enter(o); return true; }
        public static void Exit(object o) { SimLocks.Exit(o); }
        public static bool Wait(object o) { return SimLocks.Wait(o); }
        public static bool Wait(object o, int ms) { return SimLocks.Wait(o); }
        public static bool Wait(object o, TimeSpan t) { return SimLocks.Wait(o); }
        public static void Pulse(object o) { SimLocks.Pulse(o, false); }
        public static void PulseAll(object o) { SimLocks.Pulse(o, true); }
    }

    public class ReaderWriterLockSlim : IDisposable
    {
        private SimThread _writer; private int _depth; private Clock _vcW, _vcR;
        private readonly List<SimThread> _readers = new List<SimThread>();
        private SimThread _upgradeable;
        private int _epoch = Sim.Epoch;
        public ReaderWriterLockSlim() { }
        public ReaderWriterLockSlim(RT.LockRecursionPolicy p) { }
        private void Fresh() { Sim.Alive(); if (_epoch != Sim.Epoch) { _epoch = Sim.Epoch; _writer = null; _readers.Clear(); _upgradeable = null; _depth = 0; _vcW = _vcR = null; } }
        public bool IsReadLockHeld { get { return Sim.InSim && _readers.Contains(Sim.Self); } }
        public bool IsWriteLockHeld { get { return Sim.InSim && _writer == Sim.Self; } }
        public bool IsUpgradeableReadLockHeld { get { return Sim.InSim && _upgradeable == Sim.Self; } }
        public void EnterReadLock() { Fresh(); Sim.Yield(); while (_writer != null && _writer != Sim.Self) Sim.Block(this); if (_readers.Contains(Sim.Self)) throw new RT.LockRecursionException(); _readers.Add(Sim.Self); Sim.Self.Vc.Join(_vcW); }
        public bool TryEnterReadLock(int ms) { EnterReadLock(); return true; }
        public void ExitReadLock() { if (!Sim.InSim) return; if (!_readers.Remove(Sim.Self)) throw new RT.SynchronizationLockException(); Sim.Self.Release(ref _vcR); Sim.Wake(this); Sim.Yield(); }
        public void EnterWriteLock()
        {
            Fresh(); Sim.Yield();
            if (_writer == Sim.Self || _readers.Contains(Sim.Self)) throw new RT.LockRecursionException();
            while (_writer != null || _readers.Count > 0 || (_upgradeable != null && _upgradeable != Sim.Self)) Sim.Block(this);
            _writer = Sim.Self; Sim.Self.Vc.Join(_vcW); Sim.Self.Vc.Join(_vcR);
        }
        public bool TryEnterWriteLock(int ms) { EnterWriteLock(); return true; }
        public void ExitWriteLock() { if (!Sim.InSim) return; if (_writer != Sim.Self) throw new RT.SynchronizationLockException(); Sim.Self.Release(ref _vcW); _writer = null; Sim.Wake(this); Sim.Yield(); }
        public void EnterUpgradeableReadLock() { Fresh(); Sim.Yield(); while (_writer != null || _upgradeable != null) Sim.Block(this); _upgradeable = Sim.Self; Sim.Self.Vc.Join(_vcW); }
        public void ExitUpgradeableReadLock() { if (!Sim.InSim) return; _upgradeable = null; Sim.Self.Release(ref _vcR); Sim.Wake(this); Sim.Yield(); }
        public void Dispose() { }
    }

    public static class Interlocked
    {
        private static Clock _vc;
        internal static void ResetState() { _vc = null; }
        private static void Sync() { if (!Sim.InSim) return; Sim.Yield(); Sim.Self.Vc.Join(_vc); Sim.Self.Release(ref _vc); }
        public static int Increment(ref int x) { Sync(); return ++x; }
        public static long Increment(ref long x) { Sync(); return ++x; }
        public static int Decrement(ref int x) { Sync(); return --x; }
        public static long Decrement(ref long x) { Sync(); return --x; }
        public static int Add(ref int x, int y) { Sync(); return x += y; }
        public static long Add(ref long x, long y) { Sync(); return x += y; }
        public static long Read(ref long x) { Sync(); return x; }
        public static int Exchange(ref int x, int y) { Sync(); var o = x; x = y; return o; }
        public static long Exchange(ref long x, long y) { Sync(); var o = x; x = y; return o; }
        public static object Exchange(ref object x, object y) { Sync(); var o = x; x = y; return o; }
        public static T Exchange<T>(ref T x, T y) where T : class { Sync(); var o = x; x = y; return o; }
        public static int CompareExchange(ref int x, int y, int c) { Sync(); var o = x; if (o == c) x = y; return o; }
        public static long CompareExchange(ref long x, long y, long c) { Sync(); var o = x; if (o == c) x = y; return o; }
        public static object CompareExchange(ref object x, object y, object c) { Sync(); var o = x; if (ReferenceEquals(o, c)) x = y; return o; }
        public static T CompareExchange<T>(ref T x, T y, T c) where T : class { Sync(); var o = x; if (ReferenceEquals(o, c)) x = y; return o; }
        public static void MemoryBarrier() { Sync(); }
    }

    public class WaitHandle : IDisposable
    {
        private bool _set; private readonly bool _auto; private Clock _vc;
        protected WaitHandle(bool set, bool auto) { _set = set; _auto = auto; }
        public virtual bool WaitOne() { Sim.Alive(); Sim.Yield(); while (!_set) Sim.Block(this); if (_auto) _set = false; Sim.Self.Vc.Join(_vc); return true; }
        public virtual bool WaitOne(int ms) { return WaitOne(TimeSpan.FromMilliseconds(ms)); }
        public virtual bool WaitOne(int ms, bool ctx) { return WaitOne(ms); }
        public virtual bool WaitOne(TimeSpan t) { return t == TimeSpan.FromMilliseconds(-1) || t == TimeSpan.MaxValue || true ? WaitOne() : false; }
        public bool Set() { if (!Sim.InSim) return true; _set = true; Sim.Self.Release(ref _vc); Sim.Wake(this); Sim.Yield(); return true; }
        public bool Reset() { _set = false; return true; }
        public virtual void Close() { }
        public void Dispose() { }
    }
    public class EventWaitHandle : WaitHandle { protected EventWaitHandle(bool s, bool a) : base(s, a) { } }
    public class ManualResetEvent : EventWaitHandle { public ManualResetEvent(bool s) : base(s, false) { } }
    public class AutoResetEvent : EventWaitHandle { public AutoResetEvent(bool s) : base(s, true) { } }

    public static class ThreadPool
    {
        public static bool QueueUserWorkItem(RT.WaitCallback c) { return QueueUserWorkItem(c, null); }
        public static bool QueueUserWorkItem(RT.WaitCallback c, object state)
        {
            Sim.Alive();
            Sim.Spawn("pool", () => c(state));
            Sim.Yield();
            return true;
        }
    }

    public class Timer : IDisposable
    {
        private readonly SimTimer _t;
        public Timer(RT.TimerCallback c, object state, TimeSpan due, TimeSpan period) : this(c, state, (long)due.TotalMilliseconds, (long)period.TotalMilliseconds) { }
        public Timer(RT.TimerCallback c, object state, int due, int period) : this(c, state, (long)due, (long)period) { }
        public Timer(RT.TimerCallback c, object state, long due, long period)
        {
            Sim.Alive();
            _t = new SimTimer(() => c(state), Sim.Now + due * 10000, period > 0 ? period * 10000 : 0);
            if (due >= 0) Sim.AddTimer(_t);
        }
        public bool Change(int due, int period) { return Change((long)due, (long)period); }
        public bool Change(TimeSpan due, TimeSpan period) { return Change((long)due.TotalMilliseconds, (long)period.TotalMilliseconds); }
        public bool Change(long due, long period)
        {
            Sim.Alive();
            Sim.RemoveTimer(_t);
            _t.Due = Sim.Now + due * 10000; _t.Period = period > 0 ? period * 10000 : 0;
            if (due >= 0) Sim.AddTimer(_t);
            return true;
        }
        public void Dispose() { Sim.RemoveTimer(_t); }
    }

    public class Thread
    {
        private readonly Action<object> _body; private SimThread _t; private static readonly Dictionary<int, Thread> All = new Dictionary<int, Thread>();
        private object _arg;
        public Thread(RT.ThreadStart s) { _body = _ => s(); }
        public Thread(RT.ParameterizedThreadStart s) { _body = x => s(x); }
        private Thread(SimThread t) { _t = t; }
        public string Name { get; set; }
        public bool IsBackground { get; set; }
        public RT.ThreadPriority Priority { get; set; }
        public int ManagedThreadId { get { return _t == null ? -1 : _t.Id + 1; } }
        public bool IsAlive { get { return _t != null && !_t.Done; } }
        public void Start() { Start(null); }
        public void Start(object a) { Sim.Alive(); _arg = a; _t = Sim.Spawn("thread", () => _body(_arg)); Sim.Yield(); }
        public void Join() { Sim.Alive(); if (!_t.Done) Sim.Block(_t); if (_t.Exited != null) Sim.Self.Vc.Join(_t.Exited); }
        public static Thread CurrentThread { get { var s = Sim.Self; return new Thread(s); } }
        public static void Sleep(int ms) { Sleep(TimeSpan.FromMilliseconds(ms)); }
        public static void Sleep(TimeSpan t)
        {
            Sim.Alive();
            var token = new object();
            if (t.Ticks <= 0) { Sim.Yield(); return; }
            Sim.AddTimer(new SimTimer(() => Sim.Wake(token), Sim.Now + t.Ticks, 0));
            Sim.Block(token);
        }
    }

    public static class SimTime
    {
        public static DateTimeOffset OffsetUtcNow() { return new DateTimeOffset(new DateTime(Sim.Now, DateTimeKind.Utc)); }
        public static DateTime UtcNow() { return new DateTime(Sim.Now, DateTimeKind.Utc); }
    }

    // -- shared collections: happens-before races

    public static class Races
    {
        private class State { public int WThread = -1, WAt; public string WWhere; public Dictionary<int, int> Reads = new Dictionary<int, int>(); public Dictionary<int, string> RWhere = new Dictionary<int, string>(); }
        private class Cmp : IEqualityComparer<object> { bool IEqualityComparer<object>.Equals(object a, object b) { return ReferenceEquals(a, b); } public int GetHashCode(object o) { return System.Runtime.CompilerServices.RuntimeHelpers.GetHashCode(o); } }
        private static Dictionary<object, State> _s = new Dictionary<object, State>(new Cmp());
        public static void Reset() { _s = new Dictionary<object, State>(new Cmp()); _fields.Clear(); _plain.Clear(); _made.Clear(); }

        // A reference read from a field carries what was done before it was stored there.
        // (names are literals: one object each)
        private class Key { public object O; public string F; public override int GetHashCode() { return (O == null ? 0 : System.Runtime.CompilerServices.RuntimeHelpers.GetHashCode(O)) * 31 + System.Runtime.CompilerServices.RuntimeHelpers.GetHashCode(F); } public override bool Equals(object x) { var k = (Key)x; return ReferenceEquals(k.O, O) && ReferenceEquals(k.F, F); } }
        private static readonly Dictionary<Key, Clock> _fields = new Dictionary<Key, Clock>();
        public static void Load(object o, string f) { if (!Sim.InSim) return; Clock c; if (_fields.TryGetValue(new Key { O = o, F = f }, out c)) Sim.Self.Vc.Join(c); }
        public static void Store(object o, string f) { if (!Sim.InSim) return; var k = new Key { O = o, F = f }; Clock c = null; Sim.Self.Release(ref c); _fields[k] = c; }
        public static void LoadStatic(string f) { Load(null, f); }
        public static void StoreStatic(string f) { Store(null, f); }

        /// A method of a collection is about to be called.
        public static void Access(object o, bool write, string where)
        {
            var me = Sim.Self;
            if (o == null || me == null || !Sim.InSim) return;
            Sim.Yield();
            State s;
            if (!_s.TryGetValue(o, out s)) _s[o] = s = new State();
            Check(s, me, o.GetType().Name.Split('`')[0], write, where);
        }

        private static readonly Dictionary<Key, State> _plain = new Dictionary<Key, State>();

        private static readonly HashSet<object> _made = new HashSet<object>(new Cmp());

        /// Construction is over: until then an object is not shared.
        public static void Made(object o, string type) { if (Sim.InSim && o.GetType().Name == type) _made.Add(o); }

        /// A plain field is about to be read or written.
        public static void Field(object o, bool write, string field, string where)
        {
            var me = Sim.Self;
            if (me == null || !Sim.InSim || (Sim.Judged != null && !Sim.Judged.Contains("race")) || o != null && !_made.Contains(o)) return;
            var k = new Key { O = o, F = field };
            State s;
            if (!_plain.TryGetValue(k, out s)) _plain[k] = s = new State();
            Check(s, me, "field " + field, write, where);
        }

        private static void Check(State s, SimThread me, string what, bool write, string where)
        {
            if (s.WThread >= 0 && s.WThread != me.Id && me.Vc.Get(s.WThread) < s.WAt)
                Sim.Fail("race", Pair(what, where, write, s.WWhere, true));
            if (write)
            {
                foreach (var r in s.Reads)
                    if (r.Key != me.Id && me.Vc.Get(r.Key) < r.Value)
                        Sim.Fail("race", Pair(what, where, true, s.RWhere[r.Key], false));
                s.WThread = me.Id; s.WAt = me.Vc.Get(me.Id); s.WWhere = where;
                s.Reads.Clear(); s.RWhere.Clear();
            }
            else { s.Reads[me.Id] = me.Vc.Get(me.Id); s.RWhere[me.Id] = where; }
        }

        private static string Pair(string t, string a, bool aw, string b, bool bw)
        {
            return "two threads use one " + t + " without synchronisation: " + a + (aw ? " (changes it)" : " (reads it)") + " and " + b + (bw ? " (changes it)" : " (reads it)");
        }
    }

    /// Calls into the native library.
    public static class Native
    {
        public static Func<string, object[], object> Handler;
        public static object Call(string name, object[] args) { Sim.Yield(); var r = Handler(name, args); Sim.Yield(); return r; }
    }
}
