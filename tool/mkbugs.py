#!/usr/bin/env python3
"""Writes seeded/<id>/ from the definitions in tool/bugdefs/*.py (edits, demonstration, meta)."""
import difflib, glob, json, os, shutil, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


def bug(id, prop, edits, needs, breaks, demo, lang="py"):
    if len(sys.argv) > 1 and id not in sys.argv[1:]:
        return
    d = os.path.join(ROOT, "seeded", id)
    os.makedirs(d, exist_ok=True)
    files = {}
    for f, old, new in edits:
        s = files.get(f) or open(os.path.join(REPO, f)).read()
        assert s.count(old) == 1, (id, f, s.count(old), old[:80])
        files[f] = s.replace(old, new)
    patch = ""
    for f, s in files.items():
        o = open(os.path.join(REPO, f)).read()
        patch += "diff --git a/%s b/%s\n" % (f, f)
        patch += "".join(difflib.unified_diff(o.splitlines(True), s.splitlines(True), "a/" + f, "b/" + f))
    open(os.path.join(d, "patch.diff"), "w").write(patch)
    if lang == "py":
        open(os.path.join(d, "demo.sh"), "w").write("#!/bin/bash\n# cwd: the built repository\nexec python3 \"$(dirname \"$0\")/demo.py\"\n")
        open(os.path.join(d, "demo.py"), "w").write("from yr import *\n\n" + demo.strip("\n") + "\nprint(\"ok\")\n")
        shutil.copy(os.path.join(ROOT, "tool/demo/yr.py"), d)
    else:  # C++ against the built objects
        open(os.path.join(d, "demo.cpp"), "w").write(demo.strip("\n") + "\n")
        open(os.path.join(d, "demo.sh"), "w").write('''#!/bin/bash
# cwd: the built repository
W=$(mktemp -d /tmp/yrdemo.XXXXXX)
trap 'rm -rf "$W"' EXIT
cp "$(dirname "$0")/demo.cpp" "$W/" || exit 1
g++ -std=gnu++17 -O1 -pthread -I. -DCACHELINE_SIZE=64 -DUSE_TCMALLOC -o "$W/demo" "$W/demo.cpp" \\
    $(ls src/*.o src/*/*.o | grep -v src/main.o) libyrmcds.a $(sh ./detect_tcmalloc.sh 2>/dev/null | grep -o -- '-l[a-z_]*' || true) -ltcmalloc_minimal || exit 1
cd "$W" && timeout 120 ./demo
''')
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)


for f in sorted(glob.glob(os.path.join(ROOT, "tool/bugdefs/*.py"))):
    exec(open(f).read())
