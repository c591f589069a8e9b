#!/usr/bin/env python3-vt
"""usage: tools_plant.py ID PROPERTY needs breaks demo.cpp file 'old' 'new' [file old new ...]
Turns a textual change of /repo's HEAD into seeded/ID (patch.diff, demo.sh, demo.cpp, meta.json)."""
import sys, os, subprocess, json, shutil, tempfile
id, prop, needs, breaks, demo = sys.argv[1:6]
ch = sys.argv[6:]
d = "/verif/seeded/" + id
os.makedirs(d, exist_ok=True)
w = tempfile.mkdtemp(prefix="plant_")
subprocess.check_call(["git", "clone", "-q", "/repo", w + "/r"])
for i in range(0, len(ch), 3):
    f = w + "/r/" + ch[i]
    s = open(f).read()
    assert s.count(ch[i + 1]) == 1, (ch[i], s.count(ch[i + 1]))
    open(f, "w").write(s.replace(ch[i + 1], ch[i + 2]))
p = subprocess.check_output(["git", "-C", w + "/r", "diff"]).decode()
open(d + "/patch.diff", "w").write(p)
if os.path.abspath(demo) != d + "/demo.cpp":
    shutil.copy(demo, d + "/demo.cpp")
open(d + "/demo.sh", "w").write('''#!/bin/bash
# cwd: repository root.  Exit 0: property holds on the demonstrated input.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
w="$(mktemp -d)"; trap 'rm -rf "$w"' EXIT
printf '#pragma once\\n#define TQMESH_VERSION_MAJOR 1\\n#define TQMESH_VERSION_MINOR 0\\n' > "$w/TQMeshConfig.h"
cat >> "$w/TQMeshConfig.h" <<'X'
#include <string>
#define TQMESH_SOURCE_DIR "."
X
g++ -std=gnu++17 -O1 -w -DNDEBUG -I"$w" -Isrc/utils -Isrc/algorithm -Isrc/app "$here/demo.cpp" -o "$w/demo" || exit 2
cd "$w" && timeout 120 ./demo > "$w/out.txt" 2>&1
rc=$?
tail -5 "$w/out.txt"
exit $rc
''')
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
for t, want in (("/repo", 0), (w + "/r", 1)):
    r = subprocess.run(["bash", d + "/demo.sh"], cwd=t, capture_output=True, text=True)
    print(t, "exit", r.returncode, r.stdout[-300:], r.stderr[-600:])
shutil.rmtree(w)
