"""Helper to write /verif/seeded/<id>/: mkseed(id, property, [(file, old, new)], pkg, demo_test, needs, breaks)."""
import json, os, subprocess, sys
REPO = '/repo'
DEMO = '''#!/bin/bash
# exit 0: the property holds in this scenario; nonzero: it is broken
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
T=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$T"' EXIT
export TMPDIR=$T
printf '{"Replace": {"%s": "%s"}}' "$PWD/PKG/zz_seeded_demo_test.go" "$D/demo_test.go" > "$T/overlay.json"
go test -vet=off -count=1 -timeout 120s FLAGS-overlay "$T/overlay.json" -run 'TestSeededDemo$' ./PKG
'''
def mkseed(id, prop, edits, pkg, demo, needs, breaks, flags=''):
    d = f'/verif/seeded/{id}'
    os.makedirs(d, exist_ok=True)
    assert subprocess.run(['git','-C',REPO,'status','--porcelain'],capture_output=True,text=True).stdout == '', 'repo dirty'
    try:
        for f, old, new in edits:
            p = f'{REPO}/{f}'
            s = open(p).read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open(p,'w').write(s.replace(old, new))
        diff = subprocess.run(['git','-C',REPO,'diff'],capture_output=True,text=True).stdout
    finally:
        subprocess.run(['git','-C',REPO,'checkout','-q','--','.'])
    open(f'{d}/patch.diff','w').write(diff)
    open(f'{d}/demo_test.go','w').write(demo)
    open(f'{d}/demo.sh','w').write(DEMO.replace('PKG', pkg).replace('FLAGS', flags))
    os.chmod(f'{d}/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(f'{d}/meta.json','w'), indent=1)
