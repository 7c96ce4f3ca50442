"""Behaviour-preserving rewrites: every check must stay quiet (and should stay decided)."""
import os, subprocess, shutil, sys, time, re
SX=os.environ.get('SX','/tmp/plant/symex')
BUD=os.environ.get('BUD','150')
R=[]
def ref(id, props, edits, imports=()): R.append((id,props,edits,imports))
H="binary16/binary16.go";Q="binary128/binary128.go";X="float80x86/float80x86.go";PP="float128ppc/float128ppc.go";B="bfloat/bfloat.go"
src={f:open('/repo/'+f).read() for f in (H,Q,X,PP,B)}
def body(f, sig):
    s=src[f]; i=s.index(sig); j=s.index('\n}\n',i)+3
    return s[i:j]
here=os.path.dirname(os.path.abspath(__file__))
for c in ('cases.py','cases2.py'): exec(open(here+'/'+c).read())
def run(id,props,edits,imports):
    os.makedirs('/tmp/ref',exist_ok=True); d='/tmp/ref/w_'+id; shutil.rmtree(d,ignore_errors=True); subprocess.check_call(['cp','-a','/repo',d])
    for f,old,new in edits:
        p=d+'/'+f; s=open(p).read()
        if s.count(old)<1: print(id,'EDIT MISMATCH',repr(old)[:80]); shutil.rmtree(d); return
        s=s.replace(old,new)
        open(p,'w').write(s)
    for f,imp in imports:
        p=d+'/'+f; s=open(p).read(); s=s.replace('import (\n','import (\n\t"%s"\n'%imp,1); open(p,'w').write(s)
    env=dict(os.environ)
    t=subprocess.run('bash -c ". /opt/vp/env.sh; sed -i /XXX/d %s; go test ./... 2>&1 | grep -v \'no test files\'"'%edits[0][0],shell=True,cwd=d,capture_output=True,text=True)
    if 'FAIL' in t.stdout: print(id,'TESTS FAIL',t.stdout[-800:]); shutil.rmtree(d); return
    for p in props.split():
        t0=time.time()
        r=subprocess.run(['bash','-c',". /opt/vp/env.sh; export GOFLAGS=-mod=readonly; timeout 880 %s -budget %s -property %s -tier quick -repo %s -verif /verif -evidence=false"%(SX,BUD,p,d)],capture_output=True,text=True)
        und=[l.strip() for l in r.stdout.split('\n') if 'undecided' in l.lower() or 'UNDEC' in l]
        flag='ok' if r.returncode==0 and not und else 'XX'
        print(flag,id,p,'rc',r.returncode,'%.0fs'%(time.time()-t0),'|',' ; '.join(und)[:400], r.stderr[-300:] if r.returncode not in (0,1) else '', (r.stdout[:500] if r.returncode==1 else ''),flush=True)
    shutil.rmtree(d)
sel=sys.argv[1:]
for c in R:
    if not sel or any(re.match(x+'$',c[0]) for x in sel): run(*c)
