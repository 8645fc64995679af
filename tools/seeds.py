"""dev: generates /verif/seeded/* ; usage seeds.py [ids]  -> makes patch, verifies in scratch copy"""
import os,subprocess,json,sys,shutil
R='/repo'; S='/tmp/seedrepo'
DEMO='''#!/bin/bash
# builds a small program against the library in the current directory and runs it
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
bitboost = { path = "$repo" }
rayon = "1.0.3"
[profile.dev]
debug = false
[workspace]
X
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/Cargo.lock"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target"
unset RUSTFLAGS
cd "$t"
cargo build --offline -q 2> build.log || { cat build.log; exit 2; }
./target/debug/demo
'''
PRE='''#![allow(unused)]
use bitboost::config::Config;
use bitboost::data::Data;
fn table(cfg: &Config, cols: &[(Vec<f32>, bool)], target: &[f32]) -> Data {
    let mut d = Data::empty(cfg, cols.len(), target.len());
    for (i, (c, cat)) in cols.iter().enumerate() { d.set_feature_data(i, c, *cat).unwrap(); }
    d.set_feature_data(cols.len(), target, false).unwrap();
    d
}
'''
B={}
def bug(id,prop,edits,main,needs,breaks): B[id]=dict(prop=prop,edits=edits,main=main,needs=needs,breaks=breaks)
exec(open('/verif/tools/seed_defs.py').read())
sel=sys.argv[1:] or list(B)
env=dict(os.environ,RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu',CARGO_NET_OFFLINE='true',CARGO_INCREMENTAL='1',CARGO_PROFILE_DEV_DEBUG='line-tables-only',CARGO_TERM_COLOR='never',CARGO_TARGET_DIR=S+'/target')
if not os.path.exists(S): subprocess.check_call(['cp','-a',R,S])
base=json.load(open('/opt/vp/BASELINE.json'))
def run(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
run('git fetch -q /repo && git reset -q --hard FETCH_HEAD',cwd=S)
def tests():
    r=run('cargo test --workspace --offline --no-fail-fast 2>&1',cwd=S,env=env)
    return r.stdout
for id in sel:
    b=B[id]; d=f'/verif/seeded/{id}'; os.makedirs(d,exist_ok=True)
    open(d+'/demo.sh','w').write(DEMO); open(d+'/main.rs','w').write(PRE+b['main'])
    json.dump(dict(property=b['prop'],needs=b['needs'],what_it_breaks=b['breaks']),open(d+'/meta.json','w'),indent=1)
    run('git checkout -q -- .',cwd=S)
    r0=run(f'bash {d}/demo.sh',cwd=S)
    for f,o,n in b['edits']:
        p=f'{S}/{f}'; s=open(p).read()
        if s.count(o)!=1: print(id,'EDIT MATCH',s.count(o),o[:60]); break
        open(p,'w').write(s.replace(o,n))
    else:
        open(d+'/patch.diff','w').write(run('git diff',cwd=S).stdout)
        t=tests()
        fails=[l for l in t.splitlines() if l.startswith('test ') and 'FAILED' in l and 'get_indices (line' not in l and 'test result' not in l]
        if 'error' in t and 'could not compile' in t: print(id,'COMPILE',t[-1500:]); continue
        r1=run(f'bash {d}/demo.sh',cwd=S)
        print(id,b['prop'],'clean',r0.returncode,'patched',r1.returncode,'fails',fails,'|',r0.stdout[-300:] if r0.returncode else '', r1.stdout[-200:].replace('\n',' ; '))
run('git checkout -q -- .',cwd=S)
