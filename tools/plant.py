import os,subprocess,json,sys,shutil
def plant(id,prop,pkg,edits,demo,needs,breaks):
    d=f'/verif/seeded/{id}'; os.makedirs(d,exist_ok=True)
    wt='/tmp/plantwt'
    subprocess.run(['git','-C','/repo','worktree','add','-q','--detach','-f',wt,'HEAD'],check=True)
    try:
        for f,o,n in edits:
            p=wt+'/'+f; s=open(p).read()
            assert s.count(o)==1,(id,f,s.count(o),o)
            open(p,'w').write(s.replace(o,n))
        diff=subprocess.run(['git','-C',wt,'diff'],capture_output=True,text=True,check=True).stdout
    finally:
        subprocess.run(['git','-C','/repo','worktree','remove','--force',wt],check=True)
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.sh','w').write(open('/verif/tools/demo.sh.in').read().replace('@PKG@',pkg)); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo_test.go','w').write(demo)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
    print('planted',id)
