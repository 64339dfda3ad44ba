"""Development aid: writes /verif/seeded/<id>/ from the definitions in bugs/*.py and validates patches in a scratch copy.
usage: mkbugs.py [id ...]"""
import glob, json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
BUGS = {}
for f in sorted(glob.glob(HERE + "/bugs/*.py")): exec(open(f).read(), {"BUGS": BUGS})
DEMO_CC = """#!/bin/bash
# builds the demonstration against the objects of the last build
set -e
here=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
O=/opt/wod/build/obj/waymo_open_dataset; TF=/opt/wod/tf/tensorflow
find $O -name '*.o' ! -name '*_test.o' ! -name '*_main.o' ! -path '*/ops/*' ! -name 'exactfloat.o' -print0 | sort -z | xargs -0 ar qcs $T/all.a
g++ -std=c++17 -O1 -DNDEBUG -w -pthread -D_GLIBCXX_USE_CXX11_ABI=1 -DEIGEN_MAX_ALIGN_BYTES=64 -Isrc -I/opt/wod/build/gen -isystem $TF/include \\
  "$here/demo.cc" $T/all.a -o $T/demo -lglog -L$TF -Wl,-rpath,$TF -l:libtensorflow_framework.so.2 -lrt -lm
$T/demo
"""
DEMO_PY = """#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
cd "$T"
PYTHONPATH=/repo/src PYTHONDONTWRITEBYTECODE=1 PROTOCOL_BUFFERS_PYTHON_IMPLEMENTATION=python /opt/venv/bin/python "$here/demo.py"
"""
ids = sys.argv[1:] or sorted(BUGS)
for i in ids:
    b = BUGS[i]; d = V + "/seeded/" + i; os.makedirs(d, exist_ok=True)
    w = "/tmp/mkbug"; shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", w])
    for f, old, new in b["edits"]:
        p = w + "/src/waymo_open_dataset/" + f; s = open(p).read()
        if s.count(old) != 1: print(i, "EDIT FAILS", f, s.count(old), old[:60]); break
        open(p, "w").write(s.replace(old, new))
    open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", w, "diff"], text=True))
    json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
    if "cc" in b: open(d + "/demo.sh", "w").write(DEMO_CC); open(d + "/demo.cc", "w").write(b["cc"])
    else: open(d + "/demo.sh", "w").write(DEMO_PY); open(d + "/demo.py", "w").write(b["py"])
    os.chmod(d + "/demo.sh", 0o755)
shutil.rmtree("/tmp/mkbug", ignore_errors=True)
