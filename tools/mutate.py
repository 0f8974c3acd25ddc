#!/usr/bin/env python3
"""Sensitivity helper: apply one textual change at a time to the repository, run the checks, restore.
With MUT_REPO and MUT_SIM (see mutcopy.sh) it works on copies.
usage: mutate.py FILE.json [only...]   FILE: [{"name","file","old","new","h","props":[..]}]"""
import json,subprocess,sys,os
REPO=os.environ.get('MUT_REPO','/repo'); SIM=os.environ.get('MUT_SIM','/verif/sim')
ms=json.load(open(sys.argv[1])); only=sys.argv[2:]
for m in ms:
    if only and m['name'] not in only: continue
    p=REPO+'/'+m['file']; s=open(p).read()
    if s.count(m['old'])<1: print(m['name'],'OLD NOT FOUND'); continue
    open(p,'w').write(s.replace(m['old'],m['new'],1))
    try:
        h=m['h']
        b=subprocess.run(['cargo','build','--offline','--locked','-p',h],cwd=SIM,capture_output=True,text=True)
        if b.returncode: print(m['name'],'BUILD FAILED',b.stderr[-800:]); continue
        for pr in m['props']:
            try:
                r=subprocess.run([f'target/debug/{h}','check',pr,'--tier','quick','--seed','1','--secs','60','--evidence','/tmp/mut-ev.json','--replays','/tmp/mut-replays'],cwd=SIM,capture_output=True,text=True,timeout=400)
                v=[l for l in r.stdout.splitlines() if 'class=' in l][:1]
                print(m['name'],pr,'exit',r.returncode,v[0][:160] if v else '')
            except subprocess.TimeoutExpired: print(m['name'],pr,'TIMEOUT')
    finally:
        open(p,'w').write(s)
