import json,os,subprocess,shutil,sys,textwrap,tempfile
V='/verif/seeded'
ENV=dict(os.environ,CUDA_VISIBLE_DEVICES='-1',TF_CPP_MIN_LOG_LEVEL='3',PYTHONDONTWRITEBYTECODE='1')
SH='''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD:$here/stubs" CUDA_VISIBLE_DEVICES=-1 TF_CPP_MIN_LOG_LEVEL=3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python -W ignore "$here/demo.py"
'''
GETCLASS='"""Stand-in for the package getclass, which is not installed."""\n\n\ndef getclass(obj):\n    return type(obj)\n'
def plant(id,prop,edits,demo,needs,breaks,stubs=None,tests=True):
    """edits: list of (file, old, new)"""
    base=tempfile.mkdtemp(prefix='pl_',dir='/tmp')
    t=base+'/repo'
    subprocess.check_call(['git','-C','/repo','worktree','add','-q','--detach',t,'HEAD'])
    try:
        for f,old,new in edits:
            p=t+'/'+f
            s=open(p).read()
            assert s.count(old)==1,(id,f,s.count(old),old)
            open(p,'w').write(s.replace(old,new))
        diff=subprocess.check_output(['git','-C',t,'diff'],text=True)
        d=V+'/'+id
        if os.path.exists(d): shutil.rmtree(d)
        os.makedirs(d+'/stubs')
        open(d+'/patch.diff','w').write(diff)
        open(d+'/demo.sh','w').write(SH); os.chmod(d+'/demo.sh',0o755)
        open(d+'/demo.py','w').write(textwrap.dedent(demo).lstrip('\n'))
        st={'getclass.py':GETCLASS}
        st.update(stubs or {})
        for k,v in st.items():
            os.makedirs(os.path.dirname(d+'/stubs/'+k),exist_ok=True)
            open(d+'/stubs/'+k,'w').write(v)
        json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
        def run(cwd):
            return subprocess.run(['bash',d+'/demo.sh'],cwd=cwd,capture_output=True,text=True,env=ENV,timeout=300)
        a=run('/repo'); b=run(t)
        ok = a.returncode==0 and b.returncode!=0
        msg=''
        if a.returncode!=0: msg+='CLEAN FAILS: '+(a.stdout+a.stderr)[-1500:]
        if b.returncode==0: msg+='PATCHED PASSES '
        tt='-'
        if ok and tests:
            e=dict(ENV,PYTHONPATH=t)
            r=subprocess.run(['/opt/venv/bin/python','-m','pytest','-q','-p','no:cacheprovider','test/data/test_tensor.py','test/settings'],cwd=t,capture_output=True,text=True,env=e)
            tt=r.stdout.strip().splitlines()[-1]
            if 'failed' in tt or 'error' in tt: ok=False
            r=subprocess.run(['/opt/venv/bin/python','-m','compileall','-q',t+'/egenerator'],capture_output=True,text=True,env=ENV)
            if r.returncode: ok=False; tt+=' COMPILE'
        # checker
        c=subprocess.run(['python3','/verif/check.py',prop,'--repo',t,'--out',base+'/ev'],capture_output=True,text=True)
        print(id, 'OK' if ok else 'BAD', '|', tt, '| check', c.returncode, 'CAUGHT' if c.returncode==1 else 'MISSED', msg)
        if ok: print('     demo:', (b.stdout+b.stderr).strip().splitlines()[-1][:150])
        if c.returncode!=1: print('    ',c.stdout[-300:],c.stderr[-500:])
    finally:
        subprocess.call(['git','-C','/repo','worktree','remove','--force',t])
        shutil.rmtree(base,ignore_errors=True)
