import json, os, subprocess, shutil
def mk(id, prop, edits, needs, breaks, demo, mini=False):
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    assert subprocess.check_output(["git","-C","/tmp/seedwork/repo","status","--porcelain"])==b""
    try:
        for f, old, new in edits:
            p = "/tmp/seedwork/repo/" + f
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        g = subprocess.check_output(["bash","-c",". /opt/vp/env.sh; gofmt -l "+" ".join("/tmp/seedwork/repo/"+e[0] for e in edits)]).decode()
        if g: print(id, "gofmt:", g)
        diff = subprocess.check_output(["git", "-C", "/tmp/seedwork/repo", "diff"]).decode()
    finally:
        subprocess.check_call(["git", "-C", "/tmp/seedwork/repo", "checkout", "-q", "--", "."])
    # changed original lines?
    open(d + "/patch.diff", "w").write(diff)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.go", "w").write(demo.lstrip("\n"))
    files = '"$dir/demo.go"'
    if mini:
        shutil.copy("/verif/tools/mini.go.txt", d + "/mini.go"); files += ' "$dir/mini.go"'
    open(d + "/demo.sh", "w").write('''#!/bin/bash
# Exit 0 when the property holds on this scenario, non-zero when it is broken.
dir=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
cd /repo || exit 2
exec go run %s
''' % files)
    os.chmod(d + "/demo.sh", 0o755)
    subprocess.call(["bash","-c",". /opt/vp/env.sh; gofmt -w "+d+"/*.go"])
