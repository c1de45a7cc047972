#!/usr/bin/env python3
"""Mutation campaign in scratch copies (not a registered check).
 mutate.py gen OUT.json [max_per_kind] [seed]      - sample mutants of the program's source
 mutate.py run IN.json OUT.jsonl [workers] [runs]  - build each in a scratch copy, see which properties report it
A mutant is {id, file, line, old, new, kind}. Scratch copies live in /tmp/mut and are kept for the next campaign."""
import json, os, random, re, shutil, subprocess, sys, threading, queue, time
SRC = "programs/dynamic-bonding-curve/src"
PROPS = ["C%02d" % i for i in range(1, 27)]
RULES = [
    ("cmp<=", r"(?<![-=<])<=(?!=)", ["<", ">="]), ("cmp>=", r"(?<![-=>])>=(?!=)", [">", "<="]),
    ("cmp<", r" < ", [" <= "]), ("cmp>", r" > ", [" >= "]),
    ("eq", r" == ", [" != "]), ("ne", r" != ", [" == "]),
    ("round", r"Rounding::Up", ["Rounding::Down"]), ("round", r"Rounding::Down", ["Rounding::Up"]),
    ("add", r"safe_add\(", ["safe_sub("]), ("sub", r"safe_sub\(", ["safe_add("]),
    ("and", r" && ", [" || "]), ("or", r" \|\| ", [" && "]), ("min", r"\.min\(", [".max("]), ("max", r"\.max\(", [".min("]),
    ("one", r"\b1\b(?!_)", ["2", "0"]), ("true", r"\btrue\b", ["false"]), ("false", r"\bfalse\b", ["true"]),
    ("base2quote", r"\bbase_", ["quote_"]), ("quote2base", r"\bquote_", ["base_"]),
    ("partner2creator", r"\bpartner_", ["creator_"]), ("creator2partner", r"\bcreator_", ["partner_"]),
    ("hasone", r"has_one\s*=\s*\w+,?", [""]),
]
def gen(out, per, seed):
    rng = random.Random(seed); pool = {}
    for d, _, fs in os.walk("/repo/" + SRC):
        if "/tests" in d: continue
        for f in fs:
            if not f.endswith(".rs") or f in ("error.rs",): continue
            p = os.path.join(d, f); rel = os.path.relpath(p, "/repo"); L = open(p).read().split("\n")
            intest = False
            for i, l in enumerate(L):
                if "#[cfg(test)]" in l: intest = True
                if intest: continue
                t = l.strip()
                if t.startswith(("//", "use ", "#[derive", "const_assert", "#[repr", "#[cfg", "pub const", "msg!")) or not t: continue
                for k, rx, news in RULES:
                    for m in re.finditer(rx, l):
                        for n in news:
                            new = l[:m.start()] + n + l[m.end():]
                            pool.setdefault(k, []).append(dict(file=rel, line=i, old=l, new=new, kind=k))
                # statement deletion: one-line assignments and calls
                if re.match(r"^\s+(\w[\w.]*\s*=\s*[^=].*;|\w[\w.]*\([^;]*\)\??;)$", l) and not t.startswith(("let", "return", "use")):
                    pool.setdefault("del", []).append(dict(file=rel, line=i, old=l, new="", kind="del"))
                if t.startswith("require!(") or t.startswith("constraint") or t.startswith("address ="):
                    if t.startswith("require!("):
                        j = i; depth = 0
                        while True:
                            depth += L[j].count("(") - L[j].count(")")
                            if depth <= 0: break
                            j += 1
                        pool.setdefault("require", []).append(dict(file=rel, line=i, n=j - i + 1, old="\n".join(L[i:j + 1]), new="", kind="require"))
                    else:
                        pool.setdefault("require", []).append(dict(file=rel, line=i, old=l, new="", kind="require"))
    ms = []
    for k in sorted(pool):
        v = pool[k]; rng.shuffle(v); ms += v[:per if k not in ("require", "del", "hasone") else per * 5]
        print(k, len(v))
    rng.shuffle(ms)
    for i, m in enumerate(ms): m["id"] = "m%04d" % i
    json.dump(ms, open(out, "w"), indent=0); print(len(ms))
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
ENV = "export HOME=/root RUSTUP_TOOLCHAIN=1.85.0 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTC_WRAPPER=; "
def prep(w):
    d = f"/tmp/mut/{w}"
    os.makedirs(d, exist_ok=True)
    sh(f"rsync -a --delete --exclude target --exclude .git --exclude node_modules /repo/ {d}/repo/ || (mkdir -p {d}/repo && cd /repo && git ls-files -z | xargs -0 cp --parents -t {d}/repo)")
    sh(f"mkdir -p {d}/sim && cp -a /verif/sim/src /verif/sim/stubs /verif/sim/.cargo /verif/sim/Cargo.toml /verif/sim/Cargo.lock {d}/sim/")
    sh(f"grep -rlZ '/repo/\\|/verif/sim' {d}/sim --include=*.toml | xargs -0 sed -i 's#/repo/#{d}/repo/#g; s#/verif/sim#{d}/sim#g'")
    return d
def build(d, touch):
    for t in touch: os.utime(t)
    return sh(ENV + f"cd {d}/sim && CARGO_TARGET_DIR={d}/target cargo build --release --offline -j 2")
def work(w, q, out, runs, lock):
    d = prep(w)
    r = build(d, [])
    if r.returncode: print(w, "base build failed", r.stderr[-2000:]); return
    while True:
        try: m = q.get_nowait()
        except queue.Empty: return
        t0 = time.time(); res = dict(m)
        edits = m.get("edits") or [m]
        orig = {}
        ok = True
        for e in edits:
            p = f"{d}/repo/{e['file']}"
            s = open(p).read(); orig.setdefault(p, s)
            if "line" in e:
                L = s.split("\n"); n = e.get("n", 1)
                assert "\n".join(L[e["line"]:e["line"] + n]) == e["old"]
                L[e["line"]:e["line"] + n] = [e["new"]]; s = "\n".join(L)
            else:
                c = s.count(e["old"])
                if c != e.get("count", 1): ok = False; res["result"] = f"old text found {c} times in {e['file']}"; break
                s = s.replace(e["old"], e["new"])
            open(p, "w").write(s)
        if ok:
            r = build(d, orig.keys())
            if r.returncode:
                res["result"] = "nobuild"; er = [x for x in r.stderr.split("\n") if x.startswith("error")][:2]; res["err"] = er
            else:
                r = sh(("" if os.environ.get("FULL") else "MATRIX_FIRST=1 ") + f"timeout 900 {d}/target/release/dbc-sim matrix {runs}")
                res["result"] = "ran"
                try: res.update(json.loads(r.stdout.strip().split("\n")[-1]))
                except Exception: res["result"] = "crash"; res["err"] = r.stdout[-300:] + r.stderr[-500:]
        for p, s in orig.items():
            open(p, "w").write(s)
        res["s"] = round(time.time() - t0, 1)
        with lock: open(out, "a").write(json.dumps(res) + "\n")
def run(inp, out, workers, runs):
    done = set()
    if os.path.exists(out): done = {json.loads(l)["id"] for l in open(out)}
    q = queue.Queue()
    for m in json.load(open(inp)):
        if m["id"] not in done: q.put(m)
    lock = threading.Lock()
    ts = [threading.Thread(target=work, args=(w, q, out, runs, lock)) for w in range(workers)]
    [t.start() for t in ts]; [t.join() for t in ts]
a = sys.argv
if a[1] == "gen": gen(a[2], int(a[3]) if len(a) > 3 else 12, int(a[4]) if len(a) > 4 else 1)
else: run(a[2], a[3], int(a[4]) if len(a) > 4 else 6, int(a[5]) if len(a) > 5 else 150)
