// Rewrites a managed assembly for the simulator: threads, locks, timers, clock, files, network and native calls go to SimRt.
// usage: weave.exe IN OUT SIMRT.dll [access]     access: also report uses of shared collections and offer preemption at field accesses
using System;
using System.Collections.Generic;
using System.Linq;
using Mono.Cecil;
using Mono.Cecil.Cil;

class Weave
{
    static readonly HashSet<string> Types = new HashSet<string>
    {
        "System.Threading.Monitor", "System.Threading.ReaderWriterLockSlim", "System.Threading.Interlocked", "System.Threading.ThreadPool",
        "System.Threading.Timer", "System.Threading.Thread", "System.Threading.ManualResetEvent", "System.Threading.AutoResetEvent",
        "System.Threading.EventWaitHandle", "System.Threading.WaitHandle",
        "System.IO.File", "System.IO.FileStream", "System.IO.Directory", "System.IO.StreamReader", "System.IO.StreamWriter", "System.Net.WebClient"
    };
    static readonly string[] Collections = { "List`1", "Dictionary`2", "HashSet`1", "Queue`1", "Stack`1", "LinkedList`1", "SortedDictionary`2", "SortedList`2", "Collection`1", "IList`1", "ICollection`1", "IDictionary`2", "IEnumerable`1" };
    static readonly string[] Reading = { "get_", "Contains", "TryGetValue", "IndexOf", "LastIndexOf", "GetEnumerator", "ForEach", "ToArray", "Find", "Exists", "CopyTo", "Peek", "BinarySearch", "TrueForAll", "ConvertAll", "AsReadOnly", "GetRange", "IsSubsetOf", "SetEquals", "Overlaps", "IsSupersetOf", "System." };

    static int Main(string[] a)
    {
        var dir = System.IO.Path.GetDirectoryName(a[0]);
        var resolver = new DefaultAssemblyResolver();
        resolver.AddSearchDirectory(dir);
        foreach (var d in Environment.GetEnvironmentVariable("WEAVE_REFS").Split(':')) resolver.AddSearchDirectory(d);
        var m = AssemblyDefinition.ReadAssembly(a[0], new ReaderParameters { AssemblyResolver = resolver }).MainModule;
        var rt = AssemblyDefinition.ReadAssembly(a[2], new ReaderParameters { AssemblyResolver = resolver }).MainModule;
        var scope = new AssemblyNameReference(rt.Assembly.Name.Name, rt.Assembly.Name.Version);
        m.AssemblyReferences.Add(scope);
        foreach (var t in m.GetTypeReferences().ToArray())
            if (Types.Contains(t.FullName)) { t.Scope = scope; t.Namespace = "SimRt"; }
        var simTime = rt.GetType("SimRt.SimTime");
        var native = m.ImportReference(rt.GetType("SimRt.Native").Methods.First(x => x.Name == "Call"));
        var sim = rt.GetType("SimRt.Sim");
        var yield = m.ImportReference(sim.Methods.First(x => x.Name == "Yield"));
        var access = m.ImportReference(rt.GetType("SimRt.Races").Methods.First(x => x.Name == "Access"));
        var field = m.ImportReference(rt.GetType("SimRt.Races").Methods.First(x => x.Name == "Field"));
        var made = m.ImportReference(rt.GetType("SimRt.Races").Methods.First(x => x.Name == "Made"));
        var full = a.Length > 3;
        var atomic = full ? AtomicFields(m) : null;
        foreach (var t in m.GetTypes())
        {
            foreach (var f in t.Fields) if (f.IsStatic) f.IsInitOnly = false;   // so that static state can be set back between runs
            foreach (var d in t.Methods.ToArray())
            {
                if (d.IsPInvokeImpl && d.PInvokeInfo != null) { Stub(m, d, native); continue; }
                if (d.IsInternalCall) { Absent(m, d); continue; }
                if (!d.HasBody) continue;
                LongJumps(d);
                Clock(m, d, simTime);
                if (full) { Accesses(m, d, yield, access); Fields(m, d, field, made, atomic); Publications(m, d, rt.GetType("SimRt.Races")); }
            }
        }
        m.Write(a[1]);
        return 0;
    }

    static void LongJumps(MethodDefinition d)
    {
        var map = new Dictionary<OpCode, OpCode>
        {
            { OpCodes.Br_S, OpCodes.Br }, { OpCodes.Brtrue_S, OpCodes.Brtrue }, { OpCodes.Brfalse_S, OpCodes.Brfalse }, { OpCodes.Beq_S, OpCodes.Beq },
            { OpCodes.Bne_Un_S, OpCodes.Bne_Un }, { OpCodes.Bge_S, OpCodes.Bge }, { OpCodes.Bge_Un_S, OpCodes.Bge_Un }, { OpCodes.Bgt_S, OpCodes.Bgt },
            { OpCodes.Bgt_Un_S, OpCodes.Bgt_Un }, { OpCodes.Ble_S, OpCodes.Ble }, { OpCodes.Ble_Un_S, OpCodes.Ble_Un }, { OpCodes.Blt_S, OpCodes.Blt },
            { OpCodes.Blt_Un_S, OpCodes.Blt_Un }, { OpCodes.Leave_S, OpCodes.Leave }
        };
        foreach (var i in d.Body.Instructions) { OpCode to; if (map.TryGetValue(i.OpCode, out to)) i.OpCode = to; }
    }

    /// What only the player of the game engine has.
    static void Absent(ModuleDefinition m, MethodDefinition d)
    {
        d.IsInternalCall = false;
        d.Body = new MethodBody(d);
        var il = d.Body.GetILProcessor();
        il.Emit(OpCodes.Ldnull); il.Emit(OpCodes.Throw);
    }

    static void Stub(ModuleDefinition m, MethodDefinition d, MethodReference native)
    {
        d.PInvokeInfo = null; d.IsPInvokeImpl = false; d.IsPreserveSig = false;
        d.Body = new MethodBody(d);
        var il = d.Body.GetILProcessor();
        il.Emit(OpCodes.Ldstr, d.Name);
        il.Emit(OpCodes.Ldc_I4, d.Parameters.Count);
        il.Emit(OpCodes.Newarr, m.TypeSystem.Object);
        for (var i = 0; i < d.Parameters.Count; ++i)
        {
            il.Emit(OpCodes.Dup); il.Emit(OpCodes.Ldc_I4, i); il.Emit(OpCodes.Ldarg, d.Parameters[i]);
            if (d.Parameters[i].ParameterType.IsValueType) il.Emit(OpCodes.Box, d.Parameters[i].ParameterType);
            il.Emit(OpCodes.Stelem_Ref);
        }
        il.Emit(OpCodes.Call, native);
        if (d.ReturnType.FullName == "System.Void") il.Emit(OpCodes.Pop);
        else if (d.ReturnType.IsValueType) il.Emit(OpCodes.Unbox_Any, d.ReturnType);
        il.Emit(OpCodes.Ret);
        foreach (var p in d.Parameters) p.MarshalInfo = null;
    }

    static void Clock(ModuleDefinition m, MethodDefinition d, TypeDefinition simTime)
    {
        foreach (var i in d.Body.Instructions)
        {
            var r = i.Operand as MethodReference;
            if (r == null || i.OpCode != OpCodes.Call) continue;
            string to = null;
            if (r.DeclaringType.FullName == "System.DateTimeOffset" && (r.Name == "get_UtcNow" || r.Name == "get_Now")) to = "OffsetUtcNow";
            if (r.DeclaringType.FullName == "System.DateTime" && (r.Name == "get_UtcNow" || r.Name == "get_Now")) to = "UtcNow";
            if (to != null) i.Operand = m.ImportReference(simTime.Methods.First(x => x.Name == to));
        }
    }

    static void Accesses(ModuleDefinition m, MethodDefinition d, MethodReference yield, MethodReference access)
    {
        var il = d.Body.GetILProcessor();
        foreach (var i in d.Body.Instructions.ToArray())
        {
            var prefix = i.Previous != null && i.Previous.OpCode.OpCodeType == OpCodeType.Prefix;
            if (IsField(i.OpCode))
            {
                if (((FieldReference)i.Operand).Name.StartsWith("<>")) continue;
                if (d.IsConstructor) continue;
                Before(il, d, prefix ? i.Previous : i, new List<Instruction> { il.Create(OpCodes.Call, yield) });
                continue;
            }
            if (i.OpCode != OpCodes.Callvirt && i.OpCode != OpCodes.Call) continue;
            var r = (MethodReference)i.Operand;
            var g = r.DeclaringType as GenericInstanceType;
            if (!r.HasThis || g == null || prefix || r.Name == ".ctor") continue;
            if (!g.Namespace.StartsWith("System.Collections") || Array.IndexOf(Collections, g.Name) < 0) continue;
            if (i.OpCode == OpCodes.Call && r.DeclaringType.IsValueType) continue;
            // arguments into variables, the object is on top of the stack then
            var vars = new List<VariableDefinition>(); var ok = true;
            foreach (var p in r.Parameters)
            {
                var t = Resolve(p.ParameterType, g, r as GenericInstanceMethod);
                if (t == null) { ok = false; break; }
                vars.Add(new VariableDefinition(t));
            }
            if (!ok) continue;
            foreach (var v in vars) d.Body.Variables.Add(v);
            d.Body.InitLocals = true;
            var code = new List<Instruction>();
            for (var k = vars.Count - 1; k >= 0; --k) code.Add(il.Create(OpCodes.Stloc, vars[k]));
            code.Add(il.Create(OpCodes.Dup));
            code.Add(il.Create(Writes(r.Name) ? OpCodes.Ldc_I4_1 : OpCodes.Ldc_I4_0));
            code.Add(il.Create(OpCodes.Ldstr, Where(d) + "/" + r.Name));
            code.Add(il.Create(OpCodes.Call, access));
            foreach (var v in vars) code.Add(il.Create(OpCodes.Ldloc, v));
            Before(il, d, i, code);
        }
    }

    static bool IsField(OpCode c)
    {
        return c == OpCodes.Ldfld || c == OpCodes.Stfld || c == OpCodes.Ldsfld || c == OpCodes.Stsfld || c == OpCodes.Ldflda || c == OpCodes.Ldsflda;
    }

    /// Fields which are used by atomic operations.
    static HashSet<string> AtomicFields(ModuleDefinition m)
    {
        var all = new HashSet<string>();
        foreach (var t in m.GetTypes())
            foreach (var d in t.Methods)
            {
                if (!d.HasBody) continue;
                var taken = new List<string>();
                foreach (var i in d.Body.Instructions)
                {
                    if (i.OpCode == OpCodes.Ldflda || i.OpCode == OpCodes.Ldsflda) taken.Add(Name((FieldReference)i.Operand));
                    var r = i.Operand as MethodReference;
                    if (r == null || i.OpCode.FlowControl != FlowControl.Call) continue;
                    if (r.DeclaringType.Name == "Interlocked" || r.DeclaringType.Name == "Volatile" || r.Name.StartsWith("Volatile")) all.UnionWith(taken);
                    taken.Clear();
                }
            }
        return all;
    }

    static string Name(FieldReference f)
    {
        return f.DeclaringType.GetElementType().FullName + "." + f.Name;
    }

    /// Plain fields (those of types with a layout are shared with native code on purpose): two threads which use one without synchronisation, one of them changing it.
    static void Fields(ModuleDefinition m, MethodDefinition d, MethodReference check, MethodReference made, HashSet<string> atomic)
    {
        var il = d.Body.GetILProcessor();
        if (d.IsConstructor)
        {
            if (d.IsStatic || d.DeclaringType.IsValueType) return;
            foreach (var i in d.Body.Instructions.ToArray())
                if (i.OpCode == OpCodes.Ret)
                    Before(il, d, i, new List<Instruction> { il.Create(OpCodes.Ldarg_0), il.Create(OpCodes.Ldstr, d.DeclaringType.Name), il.Create(OpCodes.Call, made) });
            return;
        }
        foreach (var i in d.Body.Instructions.ToArray())
        {
            if (!IsField(i.OpCode)) continue;
            var f = (FieldReference)i.Operand;
            if (f.Name.StartsWith("<>") || f.FieldType is RequiredModifierType || atomic.Contains(Name(f))) continue;
            var own = f.DeclaringType.Resolve();
            if (own == null || own.IsValueType || own.Module != m || own.IsSequentialLayout || own.IsExplicitLayout || !f.Resolve().IsStatic && own.Name.StartsWith("<")) continue;
            if (i.Previous != null && i.Previous.OpCode.OpCodeType == OpCodeType.Prefix) continue;
            var isStatic = i.OpCode == OpCodes.Ldsfld || i.OpCode == OpCodes.Stsfld || i.OpCode == OpCodes.Ldsflda;
            var write = i.OpCode == OpCodes.Stfld || i.OpCode == OpCodes.Stsfld;
            var code = new List<Instruction>();
            VariableDefinition v = null;
            if (!isStatic && write)
            {
                if (f.DeclaringType is GenericInstanceType && f.FieldType.ContainsGenericParameter) continue;
                v = new VariableDefinition(f.FieldType); d.Body.Variables.Add(v); d.Body.InitLocals = true;
                code.Add(il.Create(OpCodes.Stloc, v));
            }
            code.Add(il.Create(isStatic ? OpCodes.Ldnull : OpCodes.Dup));
            code.Add(il.Create(write ? OpCodes.Ldc_I4_1 : OpCodes.Ldc_I4_0));
            code.Add(il.Create(OpCodes.Ldstr, own.Name.Split('`')[0] + "." + f.Name));
            code.Add(il.Create(OpCodes.Ldstr, Where(d)));
            code.Add(il.Create(OpCodes.Call, check));
            if (v != null) code.Add(il.Create(OpCodes.Ldloc, v));
            Before(il, d, i, code);
        }
    }

    /// Fields which hold collections, and volatile ones: a reference taken from them was published there.
    static void Publications(ModuleDefinition m, MethodDefinition d, TypeDefinition races)
    {
        var il = d.Body.GetILProcessor();
        foreach (var i in d.Body.Instructions.ToArray())
        {
            var get = i.OpCode == OpCodes.Ldfld || i.OpCode == OpCodes.Ldsfld; var isStatic = i.OpCode == OpCodes.Ldsfld || i.OpCode == OpCodes.Stsfld;
            if (!get && i.OpCode != OpCodes.Stfld && i.OpCode != OpCodes.Stsfld) continue;
            var f = (FieldReference)i.Operand;
            var e = f.FieldType as RequiredModifierType;
            var t = e == null ? f.FieldType : e.ElementType;
            if (e == null && !t.IsArray && Array.IndexOf(Collections, t.Name) < 0) continue;
            var own = f.DeclaringType.Resolve();
            if (own == null || own.IsValueType) continue;
            if (f.DeclaringType is GenericInstanceType && own.HasGenericParameters && f.FieldType.ContainsGenericParameter) continue;
            var prefix = i.Previous != null && i.Previous.OpCode.OpCodeType == OpCodeType.Prefix;
            var code = new List<Instruction>();
            VariableDefinition v = null;
            if (!get && !isStatic) { v = new VariableDefinition(t); d.Body.Variables.Add(v); code.Add(il.Create(OpCodes.Stloc, v)); }
            if (!isStatic) code.Add(il.Create(OpCodes.Dup));
            code.Add(il.Create(OpCodes.Ldstr, own.Name + "." + f.Name));
            var name = (get ? "Load" : "Store") + (isStatic ? "Static" : "");
            code.Add(il.Create(OpCodes.Call, m.ImportReference(races.Methods.First(x => x.Name == name))));
            if (v != null) code.Add(il.Create(OpCodes.Ldloc, v));
            Before(il, d, prefix ? i.Previous : i, code);
        }
    }

    static string Where(MethodDefinition d)
    {
        var t = d.DeclaringType; var n = d.Name;
        while (t.DeclaringType != null && t.Name.StartsWith("<")) t = t.DeclaringType;
        if (n.StartsWith("<")) { var e = n.IndexOf('>'); if (e > 1) n = n.Substring(1, e - 1); }
        return t.Name.Split('`')[0] + "." + n;
    }

    static bool Writes(string name)
    {
        foreach (var x in Reading) if (name.StartsWith(x)) return false;
        return true;
    }

    static TypeReference Resolve(TypeReference t, GenericInstanceType g, GenericInstanceMethod gm)
    {
        var p = t as GenericParameter;
        if (p != null) return p.Type == GenericParameterType.Type ? g.GenericArguments[p.Position] : gm == null ? null : gm.GenericArguments[p.Position];
        var b = t as ByReferenceType;
        if (b != null) { var e = Resolve(b.ElementType, g, gm); return e == null ? null : new ByReferenceType(e); }
        var arr = t as ArrayType;
        if (arr != null) { var e = Resolve(arr.ElementType, g, gm); return e == null ? null : new ArrayType(e, arr.Rank); }
        var gi = t as GenericInstanceType;
        if (gi != null)
        {
            var n = new GenericInstanceType(gi.ElementType);
            foreach (var x in gi.GenericArguments) { var e = Resolve(x, g, gm); if (e == null) return null; n.GenericArguments.Add(e); }
            return n;
        }
        return t;
    }

    /// Inserts code before an instruction; jumps to it run the code as well.
    static void Before(ILProcessor il, MethodDefinition d, Instruction at, List<Instruction> code)
    {
        foreach (var c in code) il.InsertBefore(at, c);
        var first = code[0];
        foreach (var j in d.Body.Instructions)
        {
            if (code.Contains(j)) continue;
            if (j.Operand == at) j.Operand = first;
            var sw = j.Operand as Instruction[];
            if (sw != null) for (var k = 0; k < sw.Length; ++k) if (sw[k] == at) sw[k] = first;
        }
        foreach (var h in d.Body.ExceptionHandlers)
        {
            if (h.TryStart == at) h.TryStart = first;
            if (h.TryEnd == at) h.TryEnd = first;
            if (h.HandlerStart == at) h.HandlerStart = first;
            if (h.HandlerEnd == at) h.HandlerEnd = first;
            if (h.FilterStart == at) h.FilterStart = first;
        }
    }
}
