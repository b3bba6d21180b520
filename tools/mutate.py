#!/usr/bin/env python3
"""Development aid: apply textual mutations to a scratch copy of the repository
and report which properties' obligations fail.  Not used by any registered check.
usage: mutate.py FILE.json [name-substring]   entries: {name, file, old, new, props, [quiet]}"""
import json, subprocess, sys, os, shutil, tempfile
G = os.environ.get("GOVC", "/tmp/govc")
muts = json.load(open(sys.argv[1]), strict=False)
sub = sys.argv[2] if len(sys.argv) > 2 else ""
env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local")
for m in muts:
    if sub and sub not in m["name"]:
        continue
    d = tempfile.mkdtemp(prefix="mut")
    r = d + "/repo"
    shutil.copytree("/repo", r, symlinks=True)
    eds = m.get("edits") or [m]
    ok = True
    for e in eds:
        p = r + "/" + e["file"]
        s = open(p).read()
        if s.count(e["old"]) < 1:
            print(m["name"], "PATTERN MISSING", e["old"][:50]); ok = False; break
        n = e.get("nth", 1)
        i = -1
        for _ in range(n):
            i = s.find(e["old"], i + 1)
        s = s[:i] + e["new"] + s[i + len(e["old"]):]
        open(p, "w").write(s)
    if ok:
        b = subprocess.run(["go", "vet", "./..."] if False else ["go", "build", "./..."], cwd=r, env=env, capture_output=True, text=True)
        if b.returncode:
            print(m["name"], "DOES NOT BUILD", b.stderr[:300])
        else:
            t = "" if os.environ.get("NOTEST") else ("tests pass" if subprocess.run(["go", "test", "./..."], cwd=r, env=env, capture_output=True).returncode == 0 else "TESTS FAIL")
            for prop in m["props"]:
                o = subprocess.run([G, "-repo", r, "-prop", prop], capture_output=True, text=True, env=env).stdout
                bad = [l.strip() for l in o.splitlines() if l.strip().split(" ")[0] in ("failed", "unknown", "error")]
                want = not m.get("quiet")
                verdict = "ok  " if bool(bad) == want else "MISS" if want else "FALSE ALARM"
                print(f"{verdict} {m['name']} {prop} {t}: {len(bad)} {bad[:2]}", flush=True)
    shutil.rmtree(d)
