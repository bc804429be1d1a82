#!/usr/bin/env python3
"""Planted changes.
  bug.py pack ID PROPERTY "needs" "breaks"   take /repo's working-tree diff as seeded/ID (main.go there is the demo), restore /repo
  bug.py try ID [PROPERTY...]                demo and checks with and without the change
  bug.py tests ID                            stable tests with the change"""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0 when the behaviour is right
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
cd /repo || exit 2
S=$(mktemp -d /tmp/demo-XXXXXX)
trap 'rm -rf "$S"' EXIT
python3 - "$D" "$S" <<'E'
import json, os, sys
d, s = sys.argv[1:]
rep = {"/repo/common/config/genesis_zz_standin.go": d + "/genesis_standin.go", "/repo/zz_demo/main.go": d + "/main.go"}
for f in os.listdir(d + "/world") if os.path.isdir(d + "/world") else []:
    rep["/repo/zz_verif/world/" + f] = d + "/world/" + f
json.dump({"Replace": rep}, open(s + "/ov.json", "w"))
E
go build -overlay "$S/ov.json" -o "$S/demo" ./zz_demo || exit 2
cd "$S" && timeout 250 "$S/demo" "$S"
'''


def sh(*a, **k):
    return subprocess.run(a, **k)


def main():
    cmd, bid = sys.argv[1:3]
    d = os.path.join(V, "seeded", bid)
    patch = d + "/patch.diff"
    if cmd == "pack":
        os.makedirs(d, exist_ok=True)
        diff = subprocess.check_output(["git", "-C", "/repo", "diff"])
        assert diff.strip(), "no change in /repo"
        open(patch, "wb").write(diff)
        sh("git", "-C", "/repo", "checkout", "--", ".", check=True)
        shutil.copy(V + "/harness/overlay/genesis_standin.go", d)
        if "zz_verif/world" in open(d + "/main.go").read():
            shutil.rmtree(d + "/world", ignore_errors=True)
            shutil.copytree(V + "/harness/world", d + "/world")
        open(d + "/demo.sh", "w").write(DEMO)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": sys.argv[3], "needs": sys.argv[4], "what_it_breaks": sys.argv[5]}, open(d + "/meta.json", "w"), indent=1)
        cmd = "try"
        sys.argv = sys.argv[:3]
    meta = json.load(open(d + "/meta.json"))
    assert not subprocess.check_output(["git", "-C", "/repo", "status", "--porcelain"]).strip(), "/repo is not clean"
    if cmd == "try":
        r = sh("bash", d + "/demo.sh", cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        print("demo without: rc", r.returncode, "" if r.returncode == 0 else r.stdout.decode()[-1500:])
    try:
        sh("git", "-C", "/repo", "apply", patch, check=True)
        if cmd == "tests":
            sh("bash", "/opt/vp/build.sh", check=True)
            sh("bash", "/opt/vp/test.sh", "/tmp/bt.json")
            b = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            t = set(json.load(open("/tmp/bt.json"))["passed"])
            print("stable tests that fail:", [x for x in b if x not in t][:10])
        else:
            r = sh("bash", d + "/demo.sh", cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            print("demo with: rc", r.returncode, "\n".join(r.stdout.decode().splitlines()[-3:])[:600])
            for p in sys.argv[3:] or [meta["property"]]:
                t0 = time.time()
                r = sh("python3", V + "/check.py", p, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                print(p, "rc", r.returncode, "%.0fs" % (time.time() - t0), r.stdout.decode()[-700:])
    finally:
        sh("git", "-C", "/repo", "checkout", "--", ".")


main()
