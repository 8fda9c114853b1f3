#!/usr/bin/env python3
"""triage.py MODULE TRACE: show every event the trace specification rejects."""
import sys,json,subprocess,re,os,tempfile,shutil
mod,trace=sys.argv[1:3]; limit=int(sys.argv[3]) if len(sys.argv)>3 else 12
d=tempfile.mkdtemp()
cfg=mod[:-5]+'Triage.cfg' if mod.endswith('Trace') else mod+'.cfg'
out=subprocess.run(['tlc','-noGenerateSpecTE','-workers','1','-metadir',d,'-config',cfg,mod+'.tla'],cwd=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'spec'),env=dict(os.environ,TRACE=trace),capture_output=True,text=True).stdout
shutil.rmtree(d)
ev=[json.loads(l) for l in open(trace)]
def diff(path,a,b,out):
    if isinstance(a,dict) and isinstance(b,dict):
        for k in sorted(set(a)|set(b)): diff(path+'.'+str(k),a.get(k),b.get(k),out)
    elif isinstance(a,list) and isinstance(b,list) and len(a)==len(b) and path.count('.')<3 and a and isinstance(a[0],(dict,list)):
        for k in range(len(a)): diff(path+'[%d]'%(k+1),a[k],b[k],out)
    elif a!=b: out.append('%s: %s -> %s'%(path,json.dumps(a),json.dumps(b)))
for l in out.split('\n'):
    if 'OBSERVER' in l or 'LOOKUP' in l: print(l)
n=0
kinds={}
for m in re.finditer(r'"<<\\"(\w+)\\", (\d+), (.*?)>> WANT (.*)"\n',out):
    n+=1
    kk=m[3]+' '+str((ev[int(m[2])-1].get('op') or {}).get('k')); kinds[kk]=kinds.get(kk,0)+1
    if n>limit: continue
    i=int(m[2]); e=ev[i-1]; p=ev[i-2]
    print('=====',m[1],i,m[3]); 
    print('op',e.get('op'),'ret',e.get('ret'),e.get('msg',''))
    if 'op' not in e or isinstance(e.get('op'),str): print({k:(v.get('raw') if isinstance(v,dict) else v) for k,v in e.items()},'WANT',m[4][:300]); continue
    try: w=json.loads(m[4].replace('\\"','"'))
    except Exception as x: print('WANT',m[4][:500]); w={}
    if isinstance(w,list): print('WANT',w); continue
    print('rets',w.get('rets'))
    if 'obs' in p and isinstance(p['obs'],dict):
        o=[]; diff('',p['obs'],e['obs'],o); print('  changed by code:'); print('\n'.join('    '+x for x in o))
    if 'obs' in e and isinstance(e['obs'],list): print('  before',p.get('obs'),p.get('own')); print('  after ',e['obs'],e.get('own'),e.get('read')); print('  want  ',json.dumps(w)); continue
    ws=w.get('s',w)
    if ws and 'val' in ws and ws['val'] and isinstance(ws['val'][0],dict):
        o=[]; bare=[{k:v for k,v in x.items() if k in y} for x,y in zip(e['obs']['val'],ws['val'])]
        diff('.val',bare,ws['val'],o); diff('.rc',e['obs']['rc'],ws['rc'],o); print('  real -> wanted:'); print('\n'.join('    '+x for x in o))
    print('  notes',json.dumps(e.get('notes'))); print('  rlog',e.get('rlog'))
print(n,'rejected',json.dumps(kinds,indent=0) if n else '')
for e in ev:
    if e['ev']=='hang': print('HANG',e)

if 'No error has been found' not in out: print(out[-3000:])
