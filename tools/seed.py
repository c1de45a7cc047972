#!/usr/bin/env python3
"""Planted bugs: tools/bugs.py (edits) + tools/demo (scenarios) -> seeded/<id>/.
 seed.py make [ID..]     - write the directories
 seed.py verify [ID..]   - with the change applied to /repo: stable tests, demo, check; and the demo without it
/repo is left as it was."""
import json, os, re, shutil, subprocess, sys
V = "/verif"; T = V + "/tools/demo"
def sh(c, t=1500, env=None):
    try: return subprocess.run(c, shell=True, capture_output=True, text=True, timeout=t, env={**os.environ, **(env or {})})
    except subprocess.TimeoutExpired: return subprocess.CompletedProcess(c, 124, "", "timeout")
def bugs():
    sh(f"python3 {V}/tools/bugs.py"); return {b["id"]: b for b in json.load(open("/tmp/bugs.json"))}
def patch(b):
    d = "/tmp/seedpatch"; shutil.rmtree(d, ignore_errors=True); out = ""
    for f in sorted({e["file"] for e in b["edits"]}):
        s = open("/repo/" + f).read(); o = s
        for e in b["edits"]:
            if e["file"] == f:
                assert s.count(e["old"]) == 1, (b["id"], f, s.count(e["old"])); s = s.replace(e["old"], e["new"])
        for k, t in (("a", o), ("b", s)):
            p = f"{d}/{k}/{f}"; os.makedirs(os.path.dirname(p), exist_ok=True); open(p, "w").write(t)
        r = subprocess.run(["diff", "-u", "--label", "a/" + f, "--label", "b/" + f, f"a/{f}", f"b/{f}"], cwd=d, capture_output=True, text=True)
        out += f"diff --git a/{f} b/{f}\n" + r.stdout
    shutil.rmtree(d); return out
def make(ids):
    B = bugs()
    for i, b in B.items():
        if ids and i not in ids: continue
        sc = f"{T}/scenarios/{i}.rs"
        if not os.path.exists(sc):
            print("no scenario:", i); continue
        d = f"{V}/seeded/{i}"
        if os.path.isdir(d): shutil.rmtree(d)
        os.makedirs(d + "/demo/src")
        open(d + "/patch.diff", "w").write(patch(b))
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["what_it_breaks"]}, open(d + "/meta.json", "w"), indent=1)
        shutil.copy(T + "/demo.sh", d + "/demo.sh"); os.chmod(d + "/demo.sh", 0o755)
        for f in ("Cargo.toml", "Cargo.lock"): shutil.copy(f"{T}/{f}", f"{d}/demo/{f}")
        shutil.copytree(V + "/sim/.cargo", d + "/demo/.cargo"); shutil.copytree(V + "/sim/stubs", d + "/demo/stubs")
        for f in ("rt", "abi", "layout", "progs", "sim"): shutil.copy(f"{V}/sim/src/{f}.rs", d + "/demo/src/")
        shutil.copy(T + "/common.rs", d + "/demo/src/common.rs")
        open(d + "/demo/src/main.rs", "w").write("#![allow(dead_code, unused_imports, deprecated)]\nmod abi;\nmod common;\nmod progs;\nmod rt;\nmod sim;\n\n" + open(sc).read())
    r = sh(f"grep -rn '/verif' {V}/seeded --include=*.sh --include=*.rs --include=*.toml"); print(r.stdout[:500])
def verify(ids):
    B = bugs(); ok = True; env = {"DEMO_TARGET_DIR": "/tmp/demotarget"}
    for i in ids or sorted(os.listdir(V + "/seeded")):
        d = f"{V}/seeded/{i}"; prop = B[i]["prop"]; line = [i, prop]
        c = sh(f"cd /repo && bash {d}/demo.sh", env=env); line.append(f"clean={c.returncode}")
        if c.returncode: line.append((c.stderr + c.stdout)[-300:])
        a = sh(f"git -C /repo apply {d}/patch.diff")
        if a.returncode: print(*line, "patch does not apply", a.stderr); continue
        try:
            p = sh(f"cd /repo && bash {d}/demo.sh", env=env); line.append(f"patched={p.returncode} {p.stderr.strip()[-160:]!r}")
            if "notest" not in os.environ.get("SEED", ""):
                t = sh("bash /opt/vp/test.sh /tmp/seed.t.json"); base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
                got = set(json.load(open("/tmp/seed.t.json"))["passed"]); line.append(f"tests_missing={len(base - got)}/{len(base)}")
            if "nocheck" not in os.environ.get("SEED", ""):
                k = sh(f"cd {V} && VERIF_SEED=1 VERIF_TIER=quick bash ./check.sh {prop} quick"); v = [x for x in k.stdout.split("\n") if "VIOLATION" in x]
                line.append(f"check={k.returncode} {v[:1]}")
        finally: sh("git -C /repo checkout -- .")
        print(*line, flush=True)
a = sys.argv
{"make": make, "verify": verify}[a[1]](a[2:])
