#!/usr/bin/env python3
"""Runs a sample of small mutations of /repo through the tests and the checks
(development only). usage: campaign.py OUT.jsonl SEED SCALE (file=count | file:n,n,...)..."""
import json, os, random, subprocess, sys, threading, queue, time
OUT, SEED, SCALE = sys.argv[1], int(sys.argv[2]), sys.argv[3]
want = dict(a.split("=") for a in sys.argv[4:] if "=" in a)
only = dict(a.split(":") for a in sys.argv[4:] if ":" in a)
ORDER = {
 "raster/geom": "C18 C24 C14 C13 C15 C12 C16", "raster/paint": "C16 C17 C13", "raster/raster": "C13 C12 C14 C15 C16 C18",
 "raster/stroke": "C18 C24", "truetype/face": "C19 C20", "truetype/glyph": "C07 C08 C09 C11 C10 C01 C06 C19",
 "truetype/hint": "C10 C02 C11", "truetype/opcodes": "C10 C02", "truetype/truetype": "C04 C05 C06 C01 C07 C02 C20 C09",
 "freetype": "C21 C23 C22"}
H = os.environ.get("HARNESS", "/verif/harness")
BASE = "/tmp/mut%d" % SEED
q = queue.Queue(); lock = threading.Lock()
done = set()
if os.path.exists(OUT):
    for l in open(OUT):
        r = json.loads(l); done.add((r["file"], r["n"]))
def sh(cmd, env, cwd, to):
    p = subprocess.Popen(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=to)
        return p.returncode, o.decode(errors="replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.wait()
        return 99, "timeout"
def worker(k):
    d = "%s/w%d" % (BASE, k); repo = d + "/repo"
    os.makedirs(d + "/ev/evidence", exist_ok=True)
    if not os.path.exists(repo): subprocess.check_call(["git", "clone", "-q", "/repo", repo])
    open(d + "/t.json", "w").write(json.dumps({"Replace": {repo + "/go.mod": "/opt/vp/mod/freetype.mod"}}))
    ov = json.load(open("/opt/vp/mod/overlay.json"))
    rep = {kk.replace("/repo", repo): v for kk, v in ov["Replace"].items()}
    open(d + "/t.json", "w").write(json.dumps({"Replace": rep}))
    s = open(H + "/go.mod").read().replace("=> /repo", "=> " + repo)
    open(d + "/go.mod", "w").write(s); open(d + "/go.sum", "w").write(open(H + "/go.sum").read())
    open(d + "/overlay.json", "w").write(json.dumps({"Replace": {repo + "/go.mod": H + "/freetype.mod"}}))
    env = dict(os.environ, HOME="/root", GO111MODULE="on", GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", CGO_ENABLED="0", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOMAXPROCS="2",
      GOCACHE=BASE + "/cache", PATH="/opt/veriftools/go1.27.3/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    tenv = dict(env, GOFLAGS="-modfile=/opt/vp/mod/freetype.mod -overlay=%s/t.json -buildvcs=false" % d)
    cenv = dict(env, GOFLAGS="-modfile=%s/go.mod -overlay=%s/overlay.json -buildvcs=false" % (d, d))
    renv = dict(env, VERIF_SEED="1", VERIF_TIER="quick", VERIF_REPO=repo, VERIF_DIR=d + "/ev", GOMAXPROCS="1")
    while True:
        try: f, n, desc = q.get_nowait()
        except queue.Empty: return
        src = subprocess.check_output(["/tmp/mutate", "/repo/%s.go" % f, str(n)])
        open("%s/%s.go" % (repo, f), "wb").write(src)
        r = dict(file=f, n=n, desc=desc); t0 = time.time()
        c, o = sh(["go", "build", "./..."], tenv, repo, 200)
        if c: r["result"] = "nobuild"
        else:
            c, o = sh(["go", "test", "-vet=off", "-timeout", "60s", "./..."], tenv, repo, 200)
            if c: r["result"] = "tests"
            else:
                c, o = sh(["go", "build", "-o", d + "/check", "./cmd/check"], cenv, H, 300)
                if c: r["result"] = "harness"; r["out"] = o[-300:]
                else:
                    r["result"] = "survived"; r["odd"] = []
                    for p in ORDER[f].split():
                        c, o = sh([d + "/check", "-check", p, "-scale", SCALE, "-workers", "1"], renv, d, 900)
                        if c == 1 and "VIOLATION property=" in o:
                            r["result"] = "caught"; r["by"] = p; break
                        if c: r["odd"].append([p, c, o[-200:]])
        r["secs"] = round(time.time() - t0, 1)
        subprocess.check_call(["git", "-C", repo, "checkout", "-q", "--", "."])
        with lock:
            open(OUT, "a").write(json.dumps(r) + "\n")
rnd = random.Random(SEED); jobs = []
for f, c in want.items():
    ls = subprocess.check_output(["/tmp/mutate", "/repo/%s.go" % f]).decode().splitlines()
    for l in rnd.sample(ls, min(int(c), len(ls))):
        n, desc = l.split(" ", 1)
        if (f, int(n)) not in done: jobs.append((f, int(n), desc))
for f, ns in only.items():
    for l in subprocess.check_output(["/tmp/mutate", "/repo/%s.go" % f]).decode().splitlines():
        n, desc = l.split(" ", 1)
        if n in ns.split(",") and (f, int(n)) not in done: jobs.append((f, int(n), desc))
rnd.shuffle(jobs)
for j in jobs: q.put(j)
ts = [threading.Thread(target=worker, args=(k,)) for k in range(int(os.environ.get("W", "7")))]
[t.start() for t in ts]; [t.join() for t in ts]
