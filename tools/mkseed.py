#!/usr/bin/env python3
"""mkseed.py make ID PROPERTY  (reads a JSON/py description on stdin: edits, needs, breaks, demo)
   mkseed.py test ID...        (clean demo, patched build + tests + demo, then the property's check)"""
import sys, os, json, subprocess, difflib, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
DEMO = r'''#!/bin/bash
# cwd: the repository. Exit 0: the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
clang++-18 -std=c++26 -DBOOST_HANA_CONFIG_ENABLE_STRING_UDL -ftemplate-backtrace-limit=0 -DBOOST_ASIO_NO_TYPEID \
  -w -I"$PWD/include" -I"$PWD/test/include" -I/usr/include/jsoncpp -include cstdint -include string -include algorithm \
  "$here/demo.cpp" -o "$tmp/demo" -ljsoncpp -lpthread
rc=$?
if [ $rc = 0 ]; then timeout 60 "$tmp/demo"; rc=$?; fi
rm -f "$tmp/demo"; rmdir "$tmp"
exit $rc
'''
def make(sid, desc):
    d = f"{V}/seeded/{sid}"; os.makedirs(d, exist_ok=True)
    diff = ""
    byfile = {}
    for f, old, new in desc["edits"]: byfile.setdefault(f, []).append((old, new))
    for f, es in byfile.items():
        a = open(f"{R}/{f}").read(); b = a
        for old, new in es:
            assert b.count(old) == 1, (f, b.count(old), old)
            b = b.replace(old, new)
        diff += "".join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), f"a/{f}", f"b/{f}"))
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.cpp", "w").write(desc["demo"])
    json.dump({"property": desc["property"], "needs": desc["needs"], "what_it_breaks": desc["breaks"]},
              open(d + "/meta.json", "w"), indent=1)
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def test(sid, check=True):
    d = f"{V}/seeded/{sid}"
    assert not sh(f"git -C {R} status --porcelain").stdout.strip()
    out = [sid]
    p = sh(f"{d}/demo.sh", cwd=R); out.append(f"clean demo {p.returncode}")
    if p.returncode: print(p.stdout[-1500:], p.stderr[-1500:])
    try:
        assert sh(f"git -C {R} apply {d}/patch.diff").returncode == 0
        b = sh("bash /opt/vp/test.sh /tmp/seed-out.json")
        try:
            r = json.load(open("/tmp/seed-out.json")); base = json.load(open("/opt/vp/BASELINE.json"))
        except Exception as e: r = {}; base = {}; print(b.stdout[-2000:])
        out.append("tests " + summary(r, base))
        p = sh(f"{d}/demo.sh", cwd=R); out.append(f"patched demo {p.returncode} {p.stdout.strip()[-100:]!r} {p.stderr.strip()[-150:]!r}")
        if check:
            prop = json.load(open(d + "/meta.json"))["property"]
            t = time.time()
            p = sh(f"VERIF_SEED=1 VERIF_TIER=quick python3 check.py {prop}", cwd=V)
            out.append(f"check {p.returncode} {time.time()-t:.0f}s " + p.stdout.strip()[-300:])
    finally:
        sh(f"git -C {R} checkout -- .")
    print("\n   ".join(out), flush=True)
def summary(r, base):
    def passed(x):
        if isinstance(x, dict):
            for k in ("passed", "stable"):
                if isinstance(x.get(k), list): return set(map(str, x[k]))
        return set()
    a, b = passed(r), passed(base)
    return f"{len(a)} passed, missing {sorted(b - a)[:5]} of {len(b)}"
if __name__ == "__main__":
    if sys.argv[1] == "make":
        g = {}; exec(sys.stdin.read(), g)
        for sid, desc in g["seeds"].items(): make(sid, desc); print("made", sid)
    else:
        for s in sys.argv[2:]: test(s)
