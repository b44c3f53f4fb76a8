#!/usr/bin/env python3
"""Generate /verif/seeded/<id>/ from tools/seeds/<id>.py-style definitions.

usage: mkseed.py NAME PROPERTY < json {edits:[{file,old,new}], needs, what, main}
Writes patch.diff (made in a scratch worktree), demo.sh, main.rs, meta.json."""
import json,os,subprocess,sys,shutil,tempfile
DEMO='''#!/bin/bash
# Builds main.rs against /repo in a scratch directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 9
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src" "$t/run"
cp "$here/main.rs" "$t/src/main.rs"
cp /repo/Cargo.lock "$t/Cargo.lock" 2>/dev/null
cat >"$t/Cargo.toml" <<'T'
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
starry = { path = "/repo" }
T
export CARGO_TARGET_DIR="$t/target" OPENSSL_NO_VENDOR=1 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0
(cd "$t" && cargo build --offline -q) >"$t/build.log" 2>&1 || { tail -30 "$t/build.log"; exit 8; }
cd "$t/run" && timeout -k 5 150 "$t/target/debug/demo"
'''
def main():
    name,prop=sys.argv[1:3]
    d=json.load(sys.stdin)
    wt=tempfile.mkdtemp(prefix='wt.')
    subprocess.check_call(['git','-C','/repo','worktree','add','-q','--detach',wt+'/r','HEAD'])
    try:
        for e in d['edits']:
            p=f"{wt}/r/{e['file']}"
            s=open(p).read()
            if s.count(e['old'])!=1: sys.exit(f"{name}: {e['old']!r} occurs {s.count(e['old'])} times")
            open(p,'w').write(s.replace(e['old'],e['new']))
        diff=subprocess.check_output(['git','-C',wt+'/r','diff'],text=True)
    finally:
        subprocess.call(['git','-C','/repo','worktree','remove','--force',wt+'/r'])
        shutil.rmtree(wt,ignore_errors=True)
    out=f'/verif/seeded/{name}'; os.makedirs(out,exist_ok=True)
    open(out+'/patch.diff','w').write(diff)
    open(out+'/demo.sh','w').write(d.get('demo') or DEMO); os.chmod(out+'/demo.sh',0o755)
    open(out+'/main.rs','w').write(d['main'])
    json.dump({'property':prop,'needs':d['needs'],'what_it_breaks':d['what']},open(out+'/meta.json','w'),indent=1,ensure_ascii=False)
    print('wrote',out,len(diff.splitlines()),'diff lines')
main()
