#!/bin/bash
# build.sh DIR: builds the simulator of the managed library from /repo's working tree into DIR.
set -e
S=$(cd "$(dirname "$0")" && pwd); D=$1; L=${CSIM_REPO:-/repo}/unity/library; A=/usr/lib/mono/2.0-api
mkdir -p "$D/in"
W=$D/.work; rm -rf "$W"; mkdir -p "$W"
NET20="/noconfig /nostdlib /nologo /reference:$A/mscorlib.dll /reference:$A/System.dll /reference:$A/System.Core.dll"
CECIL=$(ls -d /usr/lib/mono/gac/Mono.Cecil/0.11*/Mono.Cecil.dll | head -1)
newer() { [ ! -f "$1" ] || [ -n "$(find "${@:2}" -newer "$1" -print -quit)" ]; }
if newer "$D/SimRt.dll" "$S/rt"; then mcs $NET20 /optimize+ /target:library /out:"$W/SimRt.dll" "$S"/rt/*.cs; mv "$W/SimRt.dll" "$D/"; fi
if newer "$D/weave.exe" "$S/Weave.cs"; then
  mcs /nologo /out:"$W/weave.exe" /reference:"$CECIL" "$S/Weave.cs"; mv "$W/weave.exe" "$D/"
fi
# the library as its project file lists it
cd "$L/UtyMap.Unity"
FILES=$(grep -o '<Compile Include="[^"]*"' UtyMap.Unity.csproj | sed 's/.*Include="//;s/"$//;s#\\#/#g')
mcs $NET20 /target:library /debug:full /define:"TRACE;DEBUG" /out:"$W/UtyMap.Unity.dll" \
  /reference:../packages/UnityEngine.dll /reference:../packages/UtyDepend.dll /reference:../packages/UtyRx.dll $FILES
cp ../packages/{UnityEngine,UtyDepend,UtyRx}.dll "$W/"
export WEAVE_REFS="$A:$W:$D"
mono "$D/weave.exe" "$W/UtyMap.Unity.dll" "$W/lib.dll" "$D/SimRt.dll" access
mono "$D/weave.exe" "$W/UtyRx.dll" "$W/rx.dll" "$D/SimRt.dll"
mono "$D/weave.exe" "$W/UnityEngine.dll" "$W/ue.dll" "$D/SimRt.dll"
mv "$W/ue.dll" "$D/UnityEngine.dll"; mv "$W/lib.dll" "$D/UtyMap.Unity.dll"; mv "$W/rx.dll" "$D/UtyRx.dll"; cp "$W/UtyDepend.dll" "$D/"
mcs $NET20 /optimize+ /target:exe /out:"$W/sim.exe" /reference:"$D/SimRt.dll" /reference:"$D/UtyMap.Unity.dll" /reference:"$D/UtyRx.dll" \
  /reference:"$D/UtyDepend.dll" /reference:"$D/UnityEngine.dll" "$S"/harness/*.cs
mv "$W/sim.exe" "$D/"
rm -rf "$W"
