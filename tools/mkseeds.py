#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the table in tools/seeds.py (edits as text replacements against /repo's HEAD)."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(V + "/tools/seeds.py").read())
tmp = "/tmp/mkseeds"
shutil.rmtree(tmp, ignore_errors=True)
subprocess.run(["git", "clone", "-q", "/repo", tmp], check=True)
for s in SEEDS:
    if sys.argv[1:] and s["id"] not in sys.argv[1:]: continue
    subprocess.run(["git", "-C", tmp, "checkout", "-q", "--", "."], check=True)
    for f, a, b in s["edits"]:
        p = os.path.join(tmp, f); t = open(p).read()
        assert t.count(a) == 1, (s["id"], f, t.count(a), a)
        open(p, "w").write(t.replace(a, b))
    d = subprocess.run(["git", "-C", tmp, "diff"], capture_output=True, text=True, check=True).stdout
    assert d, s["id"]
    o = os.path.join(V, "seeded", s["id"]); shutil.rmtree(o, ignore_errors=True); os.makedirs(o)
    open(o + "/patch.diff", "w").write(d)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(o + "/meta.json", "w"), indent=1)
    if "py" in s:
        shutil.copy(V + "/tools/zkeval.py", o + "/zkeval.py")
        open(o + "/demo.py", "w").write("from zkeval import *\n" + s["py"])
        run = 'exec python3 -B "$(dirname "$0")/demo.py"\n'
    elif "rs" in s:
        os.makedirs(o + "/demo"); open(o + "/demo/main.rs", "w").write(s["rs"])
        run = '''D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
HERE=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export CARGO_TARGET_DIR=$PWD/target
mkdir -p $D/src; cp $HERE/demo/main.rs $D/src/; cp Cargo.lock $D/
cat > $D/Cargo.toml <<T
[package]
name = "vdemo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
zk-regex-compiler = { path = "$PWD/packages/compiler" }
zk-regex-apis = { path = "$PWD/packages/apis" }
T
cd $D && cargo build -q --offline && cd $D && $CARGO_TARGET_DIR/debug/vdemo
'''
    else:
        open(o + "/demo.js", "w").write(s["js"]); run = 'exec node "$(dirname "$0")/demo.js" "$PWD/packages/apis/pkg/zk_regex_apis.js"\n'
    open(o + "/demo.sh", "w").write("#!/bin/bash\n" + run)
    os.chmod(o + "/demo.sh", 0o755)
    print(s["id"])
shutil.rmtree(tmp)
