#!/usr/bin/env python3
"""seed.py ID...: /tmp/seeds/ID.py has PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)], DEMO"""
import sys,os,subprocess,json,shutil
WT='/tmp/wt'
SH='''#!/bin/bash
# builds and runs demo.rs against /repo's working tree
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh 2>/dev/null
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp /repo/Cargo.lock "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<'T'
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
ifc_rs = { path = "REPO/ifc_rs" }
winnow = "0.6"
anyhow = "1.0"
uuid = { version = "1", features = ["v4"] }
bevy_math = { version = "0.16", default-features = false, features = ["std"] }
T
sed -i "s#REPO#${REPO:-/repo}#" "$d/Cargo.toml"
cp ${REPO:-/repo}/ifc_rs/src/id/ifc_uuid.rs "$d/"
cd "$d" && CARGO_TARGET_DIR="${DEMO_TARGET:-$d/target}" cargo run --offline -q
'''
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,executable='/bin/bash',**k)
base=json.load(open('/opt/vp/BASELINE.json'))
for sid in sys.argv[1:]:
    g={}
    exec(open('/tmp/seeds/%s.py'%sid).read(),g)
    sh('cd %s && git checkout -q -- . && git clean -fdq -e target'%WT)
    ok=True
    for f,o,n in g['EDITS']:
        p=WT+'/'+f; t=open(p).read()
        if t.count(o)!=1: print(sid,'EDIT MATCHES',t.count(o),f,o[:60]); ok=False; break
        open(p,'w').write(t.replace(o,n))
    if not ok: continue
    d='/tmp/seedout/'+sid; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    open(d+'/patch.diff','w').write(sh('cd %s && git diff'%WT).stdout)
    open(d+'/demo.rs','w').write(g['DEMO']); open(d+'/demo.sh','w').write(SH); os.chmod(d+'/demo.sh',0o755)
    json.dump(dict(property=g['PROPERTY'],needs=g['NEEDS'],what_it_breaks=g['BREAKS']),open(d+'/meta.json','w'),indent=1)
    r=sh('. /opt/vp/env.sh; cd %s && CARGO_TARGET_DIR=%s/target cargo test --workspace --features bevy_math/std --no-fail-fast --offline 2>&1 | grep -E "^test .*FAILED|^error|test result: F" | head'%(WT,WT))
    if r.stdout.strip(): print(sid,'TESTS FAIL',r.stdout[:400]); continue
    e=dict(os.environ,DEMO_TARGET='/tmp/demo_target')
    a=subprocess.run([d+'/demo.sh'],env=dict(e,REPO=WT),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    b=subprocess.run([d+'/demo.sh'],env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    good=b.returncode==0 and a.returncode!=0
    print(sid,'OK' if good else 'BAD','patched rc',a.returncode,'clean rc',b.returncode, '' if good else (a.stdout[-600:]+'|'+b.stdout[-600:]), '|', a.stdout[-120:].replace('\n',' '))
    if good:
        t='/verif/seeded/'+sid; shutil.rmtree(t,ignore_errors=True); shutil.copytree(d,t)
    sh('cd %s && git checkout -q -- .'%WT)
