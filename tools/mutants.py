#!/usr/bin/env python3
"""mutants.py SEED COUNT [FILES...]: random small changes to /repo's files, each run
against the contracts of the properties that reach the changed function: first the
concrete runs, then (if those find nothing) the proof. Results in /tmp/mut/log."""
import sys,os,json,random,subprocess,glob,re,shutil
seed=int(sys.argv[1]); count=int(sys.argv[2])
files=sys.argv[3:] or 'sdf2.go sdf3.go utils.go matrix.go internal/d2/box.go internal/d3/box.go form2/must2/basic.go form2/must2/poly.go form3/must3/cylinders.go form3/obj3/thread/thread.go form3/obj3/thread/bolt.go form3/obj3/thread/nut.go form3/obj3/thread/hexhead.go form3/obj3/thread/knurl.go render/io.go render/octree_renderer.go render/marchingcubes.go render/stl.go render/3mf.go'.split()
prove=os.environ.get('PROVE','1')=='1'; limit=os.environ.get('LIMIT','2')
rng=random.Random(seed)
fns={}
for f in glob.glob('/verif/evidence/C*.json'):
    e=json.load(open(f))
    for n in e['coverage']['functions_under_contract']: fns.setdefault(n,[]).append(e['property'])
todo=[]
for f in files:
    out=subprocess.run(['/tmp/mutate','/repo/'+f],capture_output=True,text=True).stdout.splitlines()
    pk=os.path.dirname(f); full='github.com/soypat/sdf'+('/'+pk if pk else '')
    c=[]
    for l in out:
        n,fn,line,text=l.split('\t')
        r='(%s.%s).%s' if '.' in fn else '%s.%s'
        if '.' in fn:
            t,m=fn.split('.'); ks=['(*%s.%s).%s'%(full,t,m),'(%s.%s).%s'%(full,t,m)]
        else: ks=[full+'.'+fn]
        props=sorted({p for k in ks for p in fns.get(k,[])})
        if props: c.append((f,int(n),fn,line,text,props))
    rng.shuffle(c); todo+=c[:int(os.environ.get('PERFILE','12'))]
rng.shuffle(todo)
d='/tmp/mut/%d'%seed; os.makedirs('/tmp/mut',exist_ok=True)
log=open('/tmp/mut/log.%d'%seed,'a')
env=dict(os.environ)
if not os.path.isdir(d): subprocess.run(['git','clone','-q','/repo',d],check=True)
k=0
for f,n,fn,line,text,props in todo:
    if k>=count: break
    subprocess.run(['git','checkout','-q','--','.'],cwd=d)
    src=subprocess.run(['/tmp/mutate','/repo/'+f,str(n)],capture_output=True,text=True).stdout
    open(d+'/'+f,'w').write(src)
    if subprocess.run(['go','build','./...'],cwd=d,capture_output=True,env=env).returncode: continue
    k+=1
    exp='|'.join(p for p in props if p!='C18' or len(props)==1)
    def call(args,to):
        try: return subprocess.run(['/verif/.build/govc','-repo',d]+args,capture_output=True,text=True,env=env,timeout=to).stdout
        except subprocess.TimeoutExpired: return 'TIMEOUT'
    o=call(['-limit',limit,'-run',exp,'native'],400)
    bad=[l for l in o.splitlines() if 'C16_Tolerance' not in l and re.search(r'failed "[^"]+"',l)]
    res='CONCRETE '+bad[0].split()[0]+' '+re.search(r'failed "([^"]+)"',bad[0]).group(1) if bad else ''
    if not res and prove:
        o=call(['-run',exp,'prove'],900)
        t=[l for l in o.splitlines() if re.match(r'C\d\d_',l) and ' OK ' not in l]
        res=('PROOFONLY '+t[0][:150]) if t else 'SURVIVED'+(' TIMEOUT' if o=='TIMEOUT' else '')
    elif not res: res='NATIVE-QUIET'
    log.write('%s %s:%s %s [%s] #%d {%s}\n'%(res,f,line,fn,text,n,exp)); log.flush()
