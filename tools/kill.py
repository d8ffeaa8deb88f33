#!/usr/bin/env python3
"""Run checks against seeded bugs, in scratch copies.
usage: kill.py [-j N] [-a] [-t tier] [id...]    -a: every check, not only the bug's own property's
Each worker has /tmp/kill<N>/{repo,verif}; results are appended to /tmp/kill.log."""
import json, os, subprocess, sys, threading, queue, time, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
J, ALL, TIER, ids = 2, False, "quick", []
while args:
    a = args.pop(0)
    if a == "-j": J = int(args.pop(0))
    elif a == "-a": ALL = True
    elif a == "-t": TIER = args.pop(0)
    else: ids.append(a)
SEED = os.environ.get("SEED_DIR", ROOT + "/seeded")
ids = ids or sorted(os.listdir(SEED))
q = queue.Queue()
for i in ids: q.put(i)
props = [json.loads(l)["id"] for l in open(ROOT + "/properties.jsonl")]
lock = threading.Lock()
out = open("/tmp/kill.log", "a")
def say(s):
    with lock:
        print(s, flush=True); out.write(s + "\n"); out.flush()
def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def worker(n):
    base = os.environ.get("KILL_BASE", "/tmp/kill") + str(n)
    os.makedirs(base, exist_ok=True)
    sh(["rsync", "-a", "--delete", "--exclude", "target", "--exclude", "replays", ROOT + "/", base + "/verif/"]) if os.path.exists("/usr/bin/rsync") else sh(["bash", "-c", f"mkdir -p {base}/verif; cd {ROOT} && tar c --exclude=target --exclude=replays --exclude=.git . | tar x -C {base}/verif"])
    if not os.path.exists(base + "/repo"): sh(["git", "clone", "-q", "/repo", base + "/repo"])
    sh(["git", "fetch", "-q"], cwd=base + "/repo"); sh(["git", "reset", "-q", "--hard", "origin/HEAD"], cwd=base + "/repo")
    if os.path.exists("/repo/Cargo.lock"): sh(["cp", "/repo/Cargo.lock", base + "/repo/Cargo.lock"])
    for f in ("harness/Cargo.toml", "probe/Cargo.toml", "harness/rustc-wrap.sh"):
        p = base + "/verif/" + f
        s = open(p).read(); open(p, "w").write(s.replace('"/repo"', f'"{base}/repo"').replace("/repo/", base + "/repo/"))
    while True:
        try: i = q.get_nowait()
        except queue.Empty: return
        meta = json.load(open(f"{SEED}/{i}/meta.json"))
        r = sh(["git", "apply", f"{SEED}/{i}/patch.diff"], cwd=base + "/repo")
        if r.returncode: say(f"{i} APPLY FAILED {r.stdout[:200]}"); continue
        for p in ([meta["property"]] if not ALL else props):
            t = time.time()
            r = sh(["bash", base + "/verif/run.sh", p, TIER], env=dict(os.environ, VERIF_REPO=base + "/repo", VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER=TIER))
            vs = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            say(f"{i} {p} rc={r.returncode} {'CAUGHT' if r.returncode == 1 and vs else 'missed'} {time.time()-t:.0f}s {vs[0][:150] if vs else r.stdout[-200:] if r.returncode else ''}")
        sh(["git", "checkout", "-q", "--", "."], cwd=base + "/repo")
ts = [threading.Thread(target=worker, args=(n,)) for n in range(J)]
[t.start() for t in ts]; [t.join() for t in ts]
