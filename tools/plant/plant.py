"""plant(id, prop, needs, breaks, edits, demo): edits = [(file, old, new)], demo = Go main source body"""
import os, subprocess, shutil, json, sys
SC='/tmp/plant/repo'
DEMO='''#!/bin/bash
# Runs main.go (beside this file) inside the module at the current directory.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
echo "{\\"Replace\\": {\\"$PWD/zzdemo/main.go\\": \\"$here/main.go\\"}}" > "$tmp/overlay.json"
go build -overlay "$tmp/overlay.json" -o "$tmp/demo" ./zzdemo || exit 2
"$tmp/demo"
'''
def sh(cmd, cwd=SC, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **k)
def fresh():
    shutil.rmtree(SC, ignore_errors=True); subprocess.check_call(['cp','-a','/repo',SC]); sh('git checkout -q -- . && git clean -fdq')
def plant(id, prop, needs, breaks, edits, demo):
    fresh()
    for f,old,new in edits:
        p=SC+'/'+f; s=open(p).read()
        if s.count(old)!=1: print(id,'EDIT MISMATCH',f,s.count(old),repr(old)); return
        open(p,'w').write(s.replace(old,new))
    d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
    diff=sh('git diff').stdout
    open(d+'/patch.diff','w').write(diff)
    open(d+'/main.go','w').write(demo.lstrip())
    open(d+'/demo.sh','w').write(DEMO); os.chmod(d+'/demo.sh',0o755)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
    env='. /opt/vp/env.sh; '
    g=sh('bash -c "%s gofmt -l %s; go vet ./%s; go test ./... 2>&1 | grep -v \'no test files\'"'%(env,' '.join(e[0] for e in edits),os.path.dirname(edits[0][0])))
    t=sh('bash -c "%s go test ./... 2>&1"'%env)
    bad=sh('bash %s/demo.sh'%d)
    sh('git checkout -q -- . ')
    good=sh('bash %s/demo.sh'%d)
    ok = t.returncode==0 and bad.returncode not in(0,2) and good.returncode==0
    print(id, 'OK' if ok else 'BAD', 'tests',t.returncode,'demo bad',bad.returncode,'good',good.returncode)
    if not ok: print(g.stdout[-1500:],t.stdout[-1500:],bad.stdout,bad.stderr[-600:],good.stdout,good.stderr[-600:])
    elif g.stdout.split('\n')[0].endswith('.go'): print('gofmt:',g.stdout[:100])
