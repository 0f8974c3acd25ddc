#!/usr/bin/env python3
"""Create and verify planted bugs.
usage: plant.py SPEC.py [--only id,..] [--no-verify] [--checks-only]
SPEC.py defines BUGS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, deps={crate: toml-value}, main=rust source,
                             shims=bool, harness=str, props=[extra properties to run])]
Everything is applied to /repo's working tree temporarily and reverted at the end of each step."""
import json,subprocess,sys,os,shutil,time
V='/verif'; SE=V+'/seeded'
args=sys.argv[1:]; only=None; verify=True; checks_only=False
if '--only' in args: i=args.index('--only'); only=args[i+1].split(','); del args[i:i+2]
if '--no-verify' in args: verify=False; args.remove('--no-verify')
if '--checks-only' in args: checks_only=True; args.remove('--checks-only')
ns={}; exec(open(args[0]).read(),ns)
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
DEMO='''#!/bin/bash
# Builds the small program in demo/ against the crates of the repository in the current directory and runs it.
here="$(cd "$(dirname "$0")" && pwd)"; repo="$(pwd)"
tmp="$(mktemp -d)" || exit 3
trap 'rm -rf "$tmp"' EXIT
cp -r "$here/demo" "$tmp/demo" || exit 3
cd "$tmp/demo" || exit 3
mv Cargo.toml.in Cargo.toml; mv Cargo.lock.in Cargo.lock
sed -i "s|@REPO@|$repo|g" Cargo.toml
export CARGO_TARGET_DIR="$tmp/target" CARGO_NET_OFFLINE=true TMPDIR="$tmp"
if ! cargo build --offline -q >"$tmp/build.log" 2>&1; then tail -40 "$tmp/build.log"; echo "demo does not build"; exit 3; fi
timeout 120 "$tmp/target/debug/demo"
rc=$?
[ $rc -eq 0 ] && echo "demo: property holds" || echo "demo: property broken (exit $rc)"
exit $rc
'''
def restore(): sh('git -C /repo checkout -- .')
def demo(id):
    t=time.time(); r=subprocess.run(['bash',f'{SE}/{id}/demo.sh'],cwd='/repo',capture_output=True,text=True)
    return r.returncode,(r.stdout+r.stderr)[-700:],time.time()-t
assert sh('git -C /repo status --porcelain -uno').stdout.strip()=='' , 'repo dirty'
base=json.load(open('/opt/vp/BASELINE.json'))
for b in ns['BUGS']:
    if only and b['id'] not in only: continue
    d=f"{SE}/{b['id']}"; shutil.rmtree(d,ignore_errors=True); os.makedirs(d+'/demo/src')
    ok=True
    for f,o,n in b['edits']:
        p='/repo/'+f; s=open(p).read()
        if s.count(o)!=1: print(b['id'],'OLD count',s.count(o),f); ok=False; break
        open(p,'w').write(s.replace(o,n))
    if not ok: restore(); continue
    open(d+'/patch.diff','w').write(sh('git -C /repo diff').stdout)
    restore()
    json.dump(dict(property=b['prop'],needs=b['needs'],what_it_breaks=b['breaks']),open(d+'/meta.json','w'),indent=1)
    open(d+'/demo.sh','w').write(DEMO); os.chmod(d+'/demo.sh',0o755)
    toml='[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2024"\n[workspace]\n[profile.dev]\ndebug = 0\n[dependencies]\n'
    for k,v in b['deps'].items(): toml+=f'{k} = {v}\n'
    if b.get('shims'):
        toml_patch=open(V+'/sim/Cargo.toml').read().split('[patch.crates-io]')[1].split('\n[')[0]
        toml+='[patch.crates-io]'+toml_patch+'\n'
        shutil.copytree(V+'/sim/shims',d+'/demo/shims',ignore=shutil.ignore_patterns('target'))
        if b.get('gitvendor'):
            shutil.copytree(V+'/sim/gitvendor',d+'/demo/gitvendor')
            os.makedirs(d+'/demo/.cargo')
            cfg=open(V+'/sim/.cargo/config.toml').read().split('[net]')[1].split('[target.')[0]
            open(d+'/demo/.cargo/config.toml','w').write('[net]'+cfg)
    open(d+'/demo/Cargo.toml.in','w').write(toml)
    open(d+'/demo/src/main.rs','w').write(b['main'])
    shutil.copy(V+'/sim/Cargo.lock',d+'/demo/Cargo.lock.in')
    if not verify: continue
    res={}
    if not checks_only:
        rc,out,t=demo(b['id']); print(b['id'],f'demo clean: {rc} ({t:.0f}s)',out if rc else '')
        if rc: continue
    sh(f'git -C /repo apply {d}/patch.diff')
    try:
        if not checks_only:
            rc,out,t=demo(b['id']); print(b['id'],f'demo patched: {rc} ({t:.0f}s)',out.strip()[-300:])
            r=sh('bash /opt/vp/build.sh'); 
            if r.returncode: print(b['id'],'BUILD FAILED',r.stderr[-1500:]); continue
            for k in range(2):
                sh('bash /opt/vp/test.sh /tmp/vp_out.json')
                o=json.load(open('/tmp/vp_out.json'))
                failed=[x for x in base['stable'] if x not in set(o['passed'])] if 'stable' in base else '??'
                print(b['id'],'stable tests failing:',failed[:6] if isinstance(failed,list) else failed)
        h=b['harness']
        r=sh(f'cargo build --offline --locked -p {h}',cwd=V+'/sim')
        if r.returncode: print(b['id'],'HARNESS BUILD FAILED',r.stderr[-800:]); continue
        for pr in [b['prop']]+b.get('props',[]):
            t=time.time()
            r=sh(f'timeout 800 target/debug/{h} check {pr} --tier quick --seed 1 --evidence /tmp/mut-ev.json --replays /tmp/mut-replays',cwd=V+'/sim')
            v=[l for l in r.stdout.splitlines() if 'class=' in l][:1]
            print(b['id'],pr,'check exit',r.returncode,f'{time.time()-t:.0f}s',v[0][:200] if v else '')
    finally: restore()
    sys.stdout.flush()
