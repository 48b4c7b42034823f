#!/usr/bin/env python3
"""dev helper: python3 dev/mk.py [ID..]: write seeded/<ID> from dev/seeds_src.py (patch made in a scratch copy of the file)"""
import json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(here)
sys.path.insert(0, here)
from seeds_src import SEEDS, PRE
want = sys.argv[1:]
for s in SEEDS:
    if want and s["id"] not in want:
        continue
    d = f"{V}/seeded/{s['id']}"
    with tempfile.TemporaryDirectory() as t:
        subprocess.run(["git", "init", "-q", t], check=True)
        for f, *_ in s["edits"]:
            os.makedirs(os.path.dirname(f"{t}/{f}"), exist_ok=True)
            shutil.copy(f"/repo/{f}", f"{t}/{f}")
        subprocess.run(["git", "-C", t, "add", "-A"], check=True)
        subprocess.run(["git", "-C", t, "-c", "user.name=a", "-c", "user.email=a@b", "commit", "-qm", "x"], check=True)
        for f, old, new in s["edits"]:
            x = open(f"{t}/{f}", encoding="utf-8", newline="").read()
            if "\r\n" in x and "\r\n" not in old:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            assert x.count(old) == 1, (s["id"], f, x.count(old))
            open(f"{t}/{f}", "w", encoding="utf-8", newline="").write(x.replace(old, new))
        p = subprocess.run(["git", "-C", t, "diff"], check=True, capture_output=True).stdout
    os.makedirs(d + "/tv", exist_ok=True)
    open(d + "/patch.diff", "wb").write(p)
    for f in ("fmt.py", "api.py", "__init__.py"):
        shutil.copy(f"{V}/tv/{f}", f"{d}/tv/{f}")
    if "cpp" in s:
        open(d + "/demo.cpp", "w").write(s["cpp"])
        open(d + "/demo.sh", "w").write(f'''#!/bin/bash
D="$(cd "$(dirname "$0")" && pwd)"
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++11 -w -O1 {s.get("flags", "-fopenmp -mavx -mfma")} -I include -I src "$D/demo.cpp" -o "$T/demo" -L lib -ltennis -Wl,-rpath,"$PWD/lib" -pthread || exit 2
timeout {s.get("timeout", 60)} "$T/demo" "$T"
''')
        shutil.rmtree(d + "/tv")
    else:
        open(d + "/demo.py", "w").write(PRE + s["py"])
        open(d + "/demo.sh", "w").write(f'''#!/bin/bash
exec timeout {s.get("timeout", 120)} /opt/veriftools/pyvenv/bin/python3 -B "$(dirname "$0")/demo.py"
''')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print("wrote", s["id"])
