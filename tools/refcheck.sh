#!/bin/bash
# refcheck.sh [names]: behaviour-preserving edits of tools/refactors.py on scratch copies; the checks must stay quiet
. <(grep '^export' /verif/check.sh)
python3 - "$@" <<'P'
import sys,subprocess,shutil,tempfile,time
ns={}
exec(open('/verif/tools/refactors.py').read(),ns)
only=sys.argv[1:]
for name,checks,edits in ns['R']:
    if only and not any(o in name for o in only): continue
    tmp=tempfile.mkdtemp(prefix='ref'); r=tmp+'/repo'
    subprocess.run(['cp','-a','/repo',r])
    ok=True
    for f,a,b in edits:
        s=open(r+'/'+f).read()
        if s.count(a)!=1: print(name,'EDIT matches',s.count(a),f,a[:60]); ok=False; break
        open(r+'/'+f,'w').write(s.replace(a,b))
    if ok:
        b=subprocess.run('go build ./... && go vet . ./render ./form2/must2 ./form3/must3 2>&1 | grep -v -e unkeyed -e "^#" ; go build ./... && go test ./render ./form3/obj3/thread 2>&1 | tail -4',shell=True,cwd=r,capture_output=True,text=True)
        if 'FAIL' in b.stdout or b.returncode or 'error' in b.stderr.lower(): print(name,'BUILD/TEST',b.stdout[-300:],b.stderr[-300:])
        t=time.time()
        g=subprocess.run(['timeout','900','/verif/.build/govc','-repo',r,'-run','^('+'|'.join(checks.split())+')_','-v'],capture_output=True,text=True)
        bad=[l for l in g.stdout.splitlines() if l.startswith('C') and ' OK ' not in l and 'C16_Tolerance' not in l]
        print(name,checks,'quiet' if not bad and g.stdout else 'ALARM','%.0fs'%(time.time()-t),flush=True)
        for l in bad: print('   ',l[:220],flush=True)
    shutil.rmtree(tmp)
P
