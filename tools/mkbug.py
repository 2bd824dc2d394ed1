#!/usr/bin/env python3
# Author's aid (not a check): turns a bug specification into /verif/seeded/<id>/ after confirming in a
# scratch copy that it builds, passes the unit tests, and that its demonstration tells the two trees apart.
#   mkbug.py SPEC.py   with  BUGS=[dict(id,property,needs,breaks,edits=[(file,old,new)],demo="js")]
import sys,os,subprocess,shutil,json
spec={}; exec(open(sys.argv[1]).read(),spec)
only=set(sys.argv[2:])
S='/tmp/bugs'; R=S+'/repo'
DEMO='''#!/bin/bash
# Builds the WebAssembly package from the working tree (cwd) in a scratch directory and runs demo.js on it.
here=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
export RUSTUP_TOOLCHAIN=1.98.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=0
unset RUSTFLAGS CARGO_BUILD_TARGET
PATH=/root/.cargo/bin:$PATH
CARGO_TARGET_DIR=$W/t cargo build --offline --lib --target wasm32-unknown-unknown --manifest-path "$PWD/Cargo.toml" >"$W/log" 2>&1 || { cat "$W/log"; exit 2; }
/opt/vp/wbg/bin/wasm-bindgen --target nodejs --out-dir "$W/pkg" "$W/t/wasm32-unknown-unknown/debug/bq2cst.wasm" || exit 2
node "$here/demo.js" "$W/pkg/bq2cst.js"
'''
PRE='''const { parse, tokenize } = require(process.argv[2]);
const assert = require('assert');
// tree without comments and positions, as text
function show(n) { let s = '(' + n.node_type + (n.token ? ' ' + n.token.literal : ''); for (const k of Object.keys(n.children).sort()) { const c = n.children[k]; s += ' ' + k + ':' + (c.Node ? show(c.Node) : '[' + c.NodeVec.map(show).join(' ') + ']'); } return s + ')'; }
const tree = (s) => parse(s).map(show).join(' ');
const accepted = (s) => { try { parse(s); return true; } catch (e) { if (e instanceof Error) throw e; return false; } };
function words(ns, out = []) { for (const n of ns) { if (n.token) out.push([n.token.line, n.token.column, n.token.literal]); for (const c of Object.values(n.children)) words(c.Node ? [c.Node] : c.NodeVec, out); } return out.sort((a, b) => a[0] - b[0] || a[1] - b[1]); }
const text = (s) => words(parse(s)).map((t) => t[2]).join(' ');
'''
env=dict(os.environ,RUSTUP_TOOLCHAIN='1.98.0',CARGO_NET_OFFLINE='true',CARGO_TERM_COLOR='never',CARGO_TARGET_DIR=S+'/target',CARGO_INCREMENTAL='1',CARGO_PROFILE_DEV_DEBUG='0',PATH='/root/.cargo/bin:'+os.environ['PATH'])
def sh(c,**k): return subprocess.run(c,shell=True,text=True,capture_output=True,**k)
os.makedirs(S,exist_ok=True)
shutil.rmtree(R,ignore_errors=True); sh(f'git clone -q /repo {R}')
for b in spec['BUGS']:
    if only and b['id'] not in only: continue
    sh('git checkout -q -- .',cwd=R)
    bad=False
    for f,o,n in b['edits']:
        p=R+'/src/'+f; s=open(p).read()
        if s.count(o)!=1: print(b['id'],'edit matches',s.count(o)); bad=True; break
        open(p,'w').write(s.replace(o,n))
    if bad: continue
    d='/verif/seeded/'+b['id']; tmp=S+'/'+b['id']; shutil.rmtree(tmp,ignore_errors=True); os.makedirs(tmp)
    diff=sh('git diff',cwd=R).stdout
    t=sh('cargo test --offline --lib 2>&1 | grep -E "test result|FAILED|^error|panicked" | head -8',cwd=R,env=env).stdout
    if '16 passed; 0 failed' not in t: print(b['id'],'TESTS FAIL:',t); continue
    open(tmp+'/patch.diff','w').write(diff); open(tmp+'/demo.sh','w').write(DEMO); os.chmod(tmp+'/demo.sh',0o755)
    open(tmp+'/demo.js','w').write(PRE+b['demo'].strip()+'\n')
    json.dump(dict(property=b['property'],needs=b['needs'],what_it_breaks=b['breaks']),open(tmp+'/meta.json','w'),indent=1)
    r1=sh(f'bash {tmp}/demo.sh',cwd=R)
    sh('git checkout -q -- .',cwd=R)
    r0=sh(f'bash {tmp}/demo.sh',cwd=R)
    ok = r0.returncode==0 and r1.returncode==1
    print(b['id'],'OK' if ok else 'DEMO unchanged=%d patched=%d'%(r0.returncode,r1.returncode), (r0.stdout+r0.stderr)[-600:] if r0.returncode else '', '' if ok else (r1.stdout+r1.stderr)[-300:])
    if ok: shutil.rmtree(d,ignore_errors=True); shutil.copytree(tmp,d)
