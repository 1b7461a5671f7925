"""mk.py NAME...: make /verif/seeded/<id>/ from the BUGS table, confirm each in /repo, undo."""
import subprocess, sys, os, json, shutil, textwrap
sys.path.insert(0,'/tmp/bugs')
from table import BUGS
DEMO_SH='''#!/bin/bash
# Builds a small program against the crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
dir=$(mktemp -d) || exit 2
trap 'rm -rf "$dir"' EXIT
mkdir -p "$dir/src"
cp "$here/demo.rs" "$dir/src/main.rs"
cp "$here/Cargo.lock.demo" "$dir/Cargo.lock"
cat > "$dir/Cargo.toml" <<EOT
[package]
name = "palmcheck"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
palmtree = { path = "$repo" }
typenum = "1.12"
[profile.release]
debug-assertions = @DA@
overflow-checks = @DA@
EOT
export CARGO_TARGET_DIR="$dir/target" RUSTFLAGS=-Awarnings
cargo build --offline --quiet --release --manifest-path "$dir/Cargo.toml" || exit 2
timeout 60 "$dir/target/release/palmcheck"
'''
PRE='''#![allow(dead_code, unused_imports)]
use palmtree::*;
use std::collections::BTreeMap;
use typenum::{U4, U5, U64};
macro_rules! conf { ($n:ident, $b:ty, $l:ty, $p:ty) => {
    struct $n;
    impl<K, V> TreeConfig<K, V> for $n { type BranchSize = $b; type LeafSize = $l; type PointerKind = $p; }
} }
conf!(Small, U4, U4, Unique);
conf!(SmallShared, U4, U4, Shared);
conf!(SmallSync, U4, U4, SyncShared);
'''
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,**k)
for name in sys.argv[1:] or list(BUGS):
    b=BUGS[name]; d='/verif/seeded/'+name
    os.makedirs(d,exist_ok=True)
    for f,old,new in b['edits']:
        p='/repo/src/'+f; s=open(p).read(); assert s.count(old)==1,(name,f,s.count(old),old)
        open(p,'w').write(s.replace(old,new))
    try:
        open(d+'/patch.diff','wb').write(sh('git -C /repo diff').stdout)
        open(d+'/demo.rs','w').write(PRE+textwrap.dedent(b['demo']))
        open(d+'/demo.sh','w').write(DEMO_SH.replace('@DA@',b.get('da','true')))
        shutil.copy('/verif/harness/Cargo.lock',d+'/Cargo.lock.demo')
        json.dump({"property":b['prop'],"needs":b['needs'],"what_it_breaks":b['breaks']},open(d+'/meta.json','w'),indent=1)
        r=sh('bash /opt/vp/build.sh'); ok=r.returncode==0
        t=sh('bash /opt/vp/test.sh /tmp/o.json').stdout.decode().strip().splitlines()[-1]
        dm=sh('bash %s/demo.sh'%d,cwd='/repo')
    finally:
        sh('git -C /repo checkout -- .')
    dc=sh('bash %s/demo.sh'%d,cwd='/repo')
    print(name,'build',ok,'|',t,'| demo patched',dm.returncode,dm.stdout.decode()[-150:].replace('\n',' '),'| clean',dc.returncode, dc.stdout.decode()[-200:] if dc.returncode else '',flush=True)
